From d5fe9cbb6810fa5387ad12117d10fdeed532d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 01/52] fix: TxResp's RLP list length matches its eight fields

begin_list(7) was followed by eight appends, so the encoding closed its list
one field early and decoding it always failed on field 7.
---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From 5d16b8ad5b48266e1c6a28bdb9ee73e7ee5e8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 02/52] fix: decoding a transaction from no bytes is an error,
 not a panic

---
 protocol/src/codec/transaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..34e353c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,6 +312,9 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
+        if raw.is_empty() {
+            return Err(DecoderError::RlpIsTooShort);
+        }
         let header = raw[0];
 
         if (header & 0x80) != 0x00 {
-- 
2.43.0


From 163f6bb09ab4a620c2f04900c1a4ff89530e725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 03/52] fix: an interoperation signature with an empty r is an
 error, not a panic

---
 protocol/src/types/transaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..26e5390 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -405,6 +405,10 @@ impl SignatureComponents {
     }
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
+        if self.r.is_empty() {
+            return Err(TypesError::SignatureRIsEmpty.into());
+        }
+
         // Only call CKB-VM mode is supported now
         if self.r[0] == 0 {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
-- 
2.43.0


From 08f816968497628701406e81154715c1be336c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 04/52] fix: an empty or unknown sync response is an error, not
 a panic

---
 core/consensus/src/lib.rs   | 3 +++
 core/consensus/src/types.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 429b4fc..a76dba8 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -46,6 +46,9 @@ pub enum ConsensusType {
     #[display(fmt = "Rpc Pull Transactions")]
     RpcPullTxs,
 
+    #[display(fmt = "Rpc Response")]
+    RpcResponse,
+
     #[display(fmt = "Signed Choke")]
     SignedChoke,
 
diff --git a/core/consensus/src/types.rs b/core/consensus/src/types.rs
index cd4a73e..a10bd60 100644
--- a/core/consensus/src/types.rs
+++ b/core/consensus/src/types.rs
@@ -37,8 +37,11 @@ impl MessageCodec for ConsensusRpcResponse {
     }
 
     fn decode_msg(mut bytes: Bytes) -> ProtocolResult<Self> {
-        let len = bytes.len();
-        let flag = bytes.split_off(len - 1);
+        let flag_at = bytes
+            .len()
+            .checked_sub(1)
+            .ok_or(ConsensusError::DecodeErr(ConsensusType::RpcResponse))?;
+        let flag = bytes.split_off(flag_at);
 
         match flag.as_ref() {
             b"a" => {
@@ -51,7 +54,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(ConsensusType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(ConsensusType::RpcResponse).into()),
         }
     }
 }
-- 
2.43.0


From f871128d4d9e11d7efaffb01b6f5435ab1699da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 05/52] fix: parsing an over-long or non-hex address is an
 error, not a panic

---
 protocol/src/types/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..bf666e2 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,11 +264,12 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        let address = Address::from_hex(&s.to_lowercase())?;
         if checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
 
-        Address::from_hex(&s.to_lowercase())
+        Ok(address)
     }
 }
 
-- 
2.43.0


From 03d4f823cb95c6ba975238bee3ef513bb21fb8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 06/52] fix: hexadecimal text with a doubled 0x prefix is
 rejected

---
 devtools/axon-tools/src/types.rs | 2 +-
 protocol/src/types/primitive.rs  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..e91ff8b 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,7 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index bf666e2..e363c81 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -144,7 +144,7 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -251,6 +251,9 @@ impl Address {
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
         let s = clean_0x(s)?;
+        if Hex::is_prefixed(s) {
+            return Err(TypesError::HexPrefix.into());
+        }
         let bytes = Bytes::from(hex_decode(s)?);
         Self::from_bytes(bytes)
     }
-- 
2.43.0


From d8ba8649a9d5b09ee83125b156e050190cf4c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 07/52] fix: light-client integer fields reject text that is
 not a hexadecimal number of their width

---
 devtools/axon-tools/src/types.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index e91ff8b..d457a57 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -636,6 +636,10 @@ mod decode {
     use serde::de::{Deserialize, Deserializer};
 
     pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err("Failed to parse hex string");
+        }
+
         let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
 
         let mut start_i = 0;
@@ -665,10 +669,13 @@ mod decode {
             return Ok(0);
         }
 
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
+        if let Some(digits) = s.strip_prefix("0x") {
+            let bytes = from_hex(digits).map_err(serde::de::Error::custom)?;
+            if bytes.len() > 32 {
+                return Err(serde::de::Error::custom("Integer overflow"));
+            }
             let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
+            val.try_into().map_err(serde::de::Error::custom)
         } else {
             Err(serde::de::Error::custom("Invalid format"))
         }
@@ -683,10 +690,13 @@ mod decode {
             return Ok(0);
         }
 
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
+        if let Some(digits) = s.strip_prefix("0x") {
+            let bytes = from_hex(digits).map_err(serde::de::Error::custom)?;
+            if bytes.len() > 32 {
+                return Err(serde::de::Error::custom("Integer overflow"));
+            }
             let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
+            val.try_into().map_err(serde::de::Error::custom)
         } else {
             Err(serde::de::Error::custom("Invalid format"))
         }
-- 
2.43.0


From fbe1646abc5cead66e81d1aa4c61c622599752a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 08/52] fix: loading the consensus log skips a truncated record
 instead of looping on it

---
 core/consensus/src/wal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..8341165 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -269,6 +269,7 @@ impl ConsensusWal {
             }
 
             let file_name_timestamp = file_names_timestamps[index];
+            index += 1;
 
             let mut log_path = dir_path.clone();
             log_path.push(file_name_timestamp.to_string());
@@ -290,8 +291,6 @@ impl ConsensusWal {
 
             if info == Hasher::digest(&content).as_bytes() {
                 break Some(content);
-            } else {
-                index += 1;
             }
         };
 
-- 
2.43.0


From f8f87d3cb845b33a2ba25606d1243995a67e5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 09/52] fix: a peer's trace_id or span_id header that is not
 one no longer panics

---
 core/network/src/message/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/network/src/message/mod.rs b/core/network/src/message/mod.rs
index 43647f7..3f2b753 100644
--- a/core/network/src/message/mod.rs
+++ b/core/network/src/message/mod.rs
@@ -53,15 +53,15 @@ impl NetworkMessage {
         self.headers.get("trace_id").and_then(|id| {
             String::from_utf8(id.to_owned())
                 .ok()
-                .map(|s| AxonTracer::str_to_trace(&s).unwrap())
+                .and_then(|s| AxonTracer::str_to_trace(&s).ok())
         })
     }
 
     pub fn span_id(&self) -> Option<u64> {
-        self.headers.get("span_id").map(|id| {
+        self.headers.get("span_id").and_then(|id| {
             let mut buf = [0u8; 8];
-            buf.copy_from_slice(&id[..8]);
-            u64::from_be_bytes(buf)
+            buf.copy_from_slice(id.get(..8)?);
+            Some(u64::from_be_bytes(buf))
         })
     }
 
-- 
2.43.0


From 36310810d38c21955c6354d0cad0e6d25b1eebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 10/52] fix: a list of signed transactions has a header that
 covers all of them

---
 protocol/src/codec/transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 34e353c..3248118 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -331,7 +331,8 @@ impl Decodable for UnverifiedTransaction {
 
 impl Encodable for SignedTransaction {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.append(&self.transaction.rlp_bytes());
+        // one item of the list it may be part of: the list counts it, not this
+        s.encoder().encode_value(&self.transaction.rlp_bytes());
     }
 }
 
-- 
2.43.0


From 48a94c4c54c0fb8ad9893aefd563797b99ffe0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 11/52] fix: a batch of transactions or blocks that is cut
 short is an error, not an empty batch

---
 protocol/src/types/batch.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/protocol/src/types/batch.rs b/protocol/src/types/batch.rs
index a4c93e0..7e33e97 100644
--- a/protocol/src/types/batch.rs
+++ b/protocol/src/types/batch.rs
@@ -12,8 +12,17 @@ macro_rules! batch_msg_type {
             }
 
             fn decode_msg(bytes: Bytes) -> crate::ProtocolResult<Self> {
-                let inner: Vec<$ty> = rlp::Rlp::new(bytes.as_ref())
-                    .as_list()
+                let rlp = rlp::Rlp::new(bytes.as_ref());
+                // as_list() takes what is not a whole list for one that ends early
+                let inner: Vec<$ty> = rlp
+                    .payload_info()
+                    .and_then(|_| {
+                        if rlp.is_list() {
+                            rlp.as_list()
+                        } else {
+                            Err(rlp::DecoderError::RlpExpectedToBeList)
+                        }
+                    })
                     .map_err(|e| crate::codec::error::CodecError::Rlp(e.to_string()))?;
                 Ok(Self(inner))
             }
-- 
2.43.0


From 41aef5d76db0d8c9accaa638e6b8c893a3c601da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 12/52] fix: saved transaction lists are filed under the whole
 digest, not its first and last two bytes

---
 core/consensus/src/wal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 8341165..6031ad6 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,7 +37,7 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        wal_path.push(format!("{:?}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
@@ -89,7 +89,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:?}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From 4099533dae113a60f2cd4cc43f11f755292ed6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 13/52] fix: a proposal for another height than the one under
 consensus is rejected

---
 core/consensus/src/engine.rs | 12 ++++++++++--
 core/consensus/src/lib.rs    |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..e34d251 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,9 +159,17 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::InvalidProposalNumber {
+                expect: next_number,
+                actual: proposal.number,
+            })
+            .into());
+        }
+
+        if Some(proposal.number) != proposal.proof.number.checked_add(1) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index a76dba8..d8974ce 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -119,6 +119,14 @@ pub enum ConsensusError {
     #[display(fmt = "Overlord error {:?}", _0)]
     OverlordErr(Box<dyn Error + Send>),
 
+    /// The proposed block is not the one of the height under consensus.
+    #[display(
+        fmt = "Invalid proposal block number, expect {}, actual {}",
+        expect,
+        actual
+    )]
+    InvalidProposalNumber { expect: u64, actual: u64 },
+
     /// Consensus missed last block proof.
     #[display(
         fmt = "Invalid proof block number, expect {}, actual {}",
-- 
2.43.0


From 8648fd5e2699b6bacf05284e61f83b5059b57f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 14/52] fix: a proposal whose hash is not the one the consensus
 votes on is rejected

---
 core/consensus/src/engine.rs | 11 ++++++++++-
 core/consensus/src/lib.rs    |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index e34d251..f42a717 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -167,6 +167,15 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             .into());
         }
 
+        let proposal_hash = proposal.hash();
+        if hash.as_ref() != proposal_hash.as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::InvalidProposalHash {
+                expect: proposal_hash,
+                actual: format!("{:x}", hash),
+            })
+            .into());
+        }
+
         if Some(proposal.number) != proposal.proof.number.checked_add(1) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
                 expect: proposal.number.saturating_sub(1),
@@ -207,7 +216,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
         let exemption = {
             self.exemption_hash
                 .read()
-                .contains(&Hash::from_slice(hash.as_ref()))
+                .contains(&proposal_hash)
         };
 
         gauge_txs_len(&proposal);
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index d8974ce..39c8f04 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -127,6 +127,14 @@ pub enum ConsensusError {
     )]
     InvalidProposalNumber { expect: u64, actual: u64 },
 
+    /// The proposed block is not the one the consensus votes on.
+    #[display(
+        fmt = "Invalid proposal hash, expect {:#x}, actual 0x{}",
+        expect,
+        actual
+    )]
+    InvalidProposalHash { expect: Hash, actual: String },
+
     /// Consensus missed last block proof.
     #[display(
         fmt = "Invalid proof block number, expect {}, actual {}",
-- 
2.43.0


From a6725cfc746b7e135703f80c6c9fbd205076bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 15/52] fix: a proposal that starts from another state than the
 previous block's is rejected

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index f42a717..3ce0af2 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -580,6 +580,14 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        if proposal.prev_state_root != previous_block.header.state_root {
+            return Err(ConsensusError::InvalidStateRoot {
+                expect: previous_block.header.state_root,
+                actual: proposal.prev_state_root,
+            }
+            .into());
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
-- 
2.43.0


From abb873ee058075ff24fa3811bf8ff28e2f452243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 16/52] fix: a synced block with another chain id or base fee
 than the chain's is rejected

---
 core/consensus/src/adapter.rs | 13 ++++++++++++-
 core/consensus/src/lib.rs     |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..99ed4ae 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -13,6 +13,7 @@ use core_network::{PeerId, PeerIdExt};
 use protocol::constants::endpoints::{
     BROADCAST_HEIGHT, RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_PROOF, RPC_SYNC_PULL_TXS,
 };
+use protocol::constants::BASE_FEE_PER_GAS;
 use protocol::traits::{
     CommonConsensusAdapter, ConsensusAdapter, Context, Executor, Gossip, MemPool, MessageTarget,
     Network, PeerTrust, Priority, Rpc, Storage, SynchronizationAdapter,
@@ -26,7 +27,7 @@ use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
-use crate::BlockHeaderField::{PreviousBlockHash, Version};
+use crate::BlockHeaderField::{BaseFee, ChainId, PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
 use crate::{types::PullTxsRequest, BlockProofField, ConsensusError};
 
@@ -446,6 +447,16 @@ where
             );
         }
 
+        // These two are not on the wire of a proposal, so its proof does not cover
+        // them.
+        if previous_block.header.chain_id != proposal.chain_id {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, ChainId).into());
+        }
+
+        if proposal.base_fee_per_gas != BASE_FEE_PER_GAS.into() {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, BaseFee).into());
+        }
+
         Ok(())
     }
 
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 39c8f04..a8f068a 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -239,6 +239,12 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The block version")]
     Version,
+
+    #[display(fmt = "The base fee is not the chain's")]
+    BaseFee,
+
+    #[display(fmt = "The chain id mismatch the previous block")]
+    ChainId,
 }
 
 #[derive(Debug, Display)]
-- 
2.43.0


From 102c804f41db4a96cf1a70c7f157cfc5ce3dd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 17/52] fix: a synced block whose gas used or log bloom is not
 its execution's is rejected

---
 core/consensus/src/lib.rs             |  6 ++++++
 core/consensus/src/synchronization.rs | 31 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index a8f068a..d1829f3 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -245,6 +245,12 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The chain id mismatch the previous block")]
     ChainId,
+
+    #[display(fmt = "The gas used mismatch the execution")]
+    GasUsed,
+
+    #[display(fmt = "The log bloom mismatch the execution")]
+    LogBloom,
 }
 
 #[derive(Debug, Display)]
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..8f91b36 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -12,7 +12,7 @@ use protocol::{async_trait, ProtocolResult};
 
 use crate::status::{CurrentStatus, StatusAgent};
 use crate::util::digest_signed_transactions;
-use crate::ConsensusError;
+use crate::{BlockHeaderField, ConsensusError};
 
 const POLLING_BROADCAST: u64 = 2000;
 const ONCE_SYNC_BLOCK_LIMIT: u64 = 50;
@@ -310,16 +310,17 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
     ) -> ProtocolResult<()> {
         let block = &rich_block.block;
         let block_hash = block.hash();
+        let proposal = Proposal::new_with_state_root(
+            &block.header,
+            self.status.inner().last_state_root,
+            block.tx_hashes.clone(),
+        );
         let resp = self
             .adapter
             .exec(
                 ctx.clone(),
                 status_agent.inner().last_state_root,
-                &Proposal::new_with_state_root(
-                    &block.header,
-                    self.status.inner().last_state_root,
-                    block.tx_hashes.clone(),
-                ),
+                &proposal,
                 &rich_block.txs,
             )
             .await?;
@@ -340,6 +341,24 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        let executed = Block::new(proposal, resp.clone());
+
+        if executed.header.gas_used != block.header.gas_used {
+            return Err(ConsensusError::VerifyBlockHeader(
+                block.header.number,
+                BlockHeaderField::GasUsed,
+            )
+            .into());
+        }
+
+        if executed.header.log_bloom != block.header.log_bloom {
+            return Err(ConsensusError::VerifyBlockHeader(
+                block.header.number,
+                BlockHeaderField::LogBloom,
+            )
+            .into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         let metadata = self
-- 
2.43.0


From 5cc889bc3260dbd78b71f59168752fe7f19f67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 18/52] fix: the hash of a transaction is not taken for the
 hash of its block

---
 core/storage/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index f4a697d..8d5adc3 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -108,6 +108,14 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
     async fn get_block_number_by_hash(&self, hash: &Hash) -> ProtocolResult<Option<u64>> {
         get_cache!(self, hash, block_numbers);
         let ret = self.adapter.get::<BlockHashNumberSchema>(*hash)?;
+        // The transactions' hashes are in the same column, and are not blocks' hashes.
+        let ret = match ret {
+            Some(number) => match self.get_block_header(Context::new(), number).await? {
+                Some(header) if header.hash() == *hash => Some(number),
+                _ => None,
+            },
+            None => None,
+        };
         put_cache!(self, hash, ret, block_numbers);
         Ok(ret)
     }
-- 
2.43.0


From 3106456a18d94431f269d3264fa872935c469f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 19/52] fix: transactions and receipts asked for twice in one
 list are returned twice

---
 core/storage/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index 8d5adc3..e9d2756 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -294,7 +294,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -328,7 +328,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes
+            .iter()
+            .map(|h| found.get(h).cloned())
+            .collect::<Vec<_>>())
     }
 
     async fn get_code_by_hash(&self, _ctx: Context, hash: &Hash) -> ProtocolResult<Option<Bytes>> {
@@ -436,7 +439,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -470,7 +473,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes
+            .iter()
+            .map(|h| found.get(h).cloned())
+            .collect::<Vec<_>>())
     }
 
     async fn get_latest_proof(&self, _ctx: Context) -> ProtocolResult<Proof> {
-- 
2.43.0


From 9fa9d72f500e5f8b9a33dd578d4801e41d9fd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 20/52] fix: every system transaction dropped with its bucket
 leaves the pool's count

A bucket holds all the transactions with one call data. Flushing one of them
drops the bucket, but only one was taken off the count, so the pool went on
counting transactions it no longer held and in the end refused all others.
---
 core/mempool/src/pool.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..2503df8 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -364,9 +364,12 @@ impl BuiltInContractTxBucket {
 
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
-            if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+            if let Some((_, data)) = self.hash_data_map.remove(hash) {
+                if let Some((_, txs)) = self.tx_buckets.remove(&data) {
+                    *reduce_len += txs.len();
+                    for tx_hash in txs.keys() {
+                        self.hash_data_map.remove(tx_hash);
+                    }
                 }
             }
         }
-- 
2.43.0


From 79a8675eb020ee3fb56b7446ffdb4267d04f8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 21/52] fix: a sender's transactions are packaged in the order
 of their nonces

The transactions were compared by nonce within a sender and by price across
senders, which is no total order: sorting could place a sender's later
transaction before an earlier one (and may panic), and a limit then cut out
the earlier one.
---
 core/mempool/src/pool.rs       | 22 +++++++++++++++++++++-
 core/mempool/src/tx_wrapper.rs | 17 +----------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 2503df8..485a5ca 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -163,7 +163,7 @@ impl PriorityPool {
         }
         let mut q = self.real_queue.lock();
 
-        q.sort_unstable();
+        sort_by_price_and_nonce(&mut q);
 
         hashes.extend(
             q.iter()
@@ -391,6 +391,26 @@ impl BuiltInContractTxBucket {
     }
 }
 
+/// Sorts by price while each sender's transactions stay in the order of their
+/// nonces: a transaction is never placed at a lower price than its sender's
+/// earlier ones.
+fn sort_by_price_and_nonce(txs: &mut Vec<TxPtr>) {
+    txs.sort_by_key(|tx| (tx.sender(), *tx.nonce()));
+
+    let mut priced: Vec<(U64, TxPtr)> = Vec::with_capacity(txs.len());
+    for tx in txs.drain(..) {
+        let price = match priced.last() {
+            Some((price, prev)) if prev.sender() == tx.sender() => tx.gas_price().max(*price),
+            _ => tx.gas_price(),
+        };
+        priced.push((price, tx));
+    }
+
+    // The sort is stable.
+    priced.sort_by_key(|(price, _)| *price);
+    txs.extend(priced.into_iter().map(|(_, tx)| tx));
+}
+
 fn pop_all_item<T>(queue: Arc<ArrayQueue<T>>) -> impl Iterator<Item = T> {
     (0..queue.len()).map(move |_| queue.pop().unwrap())
 }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..3226647 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -1,4 +1,4 @@
-use std::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
+use std::cmp::{Eq, PartialEq};
 use std::collections::{btree_map::Entry, BTreeMap};
 use std::ops::Bound::{Included, Unbounded};
 use std::sync::atomic::{AtomicU8, Ordering as AtomicOrdering};
@@ -26,15 +26,6 @@ impl From<SignedTransaction> for TxWrapper {
     }
 }
 
-impl Ord for TxWrapper {
-    fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
-    }
-}
-
 impl PartialEq for TxWrapper {
     fn eq(&self, other: &Self) -> bool {
         self.hash() == other.hash()
@@ -43,12 +34,6 @@ impl PartialEq for TxWrapper {
 
 impl Eq for TxWrapper {}
 
-impl PartialOrd for TxWrapper {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
 impl TxWrapper {
     pub fn hash(&self) -> Hash {
         self.tx.transaction.hash
-- 
2.43.0


From a60046fae87b3997d7eded1a20d0501cb16a9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 22/52] fix: a transaction that times out takes those behind it
 off the package list

Later transactions of the sender stayed on the list and were packaged without
it, and one offered again for the gap was never put on the list.
---
 core/mempool/src/pool.rs       |  6 +++---
 core/mempool/src/tx_wrapper.rs | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 485a5ca..a9f1489 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -296,12 +296,12 @@ impl PriorityPool {
 
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
-        q.retain(|ptr| !ptr.is_dropped());
-
         self.pending_queue.retain(|_, v| {
             v.clear_droped();
             !v.need_remove()
-        })
+        });
+
+        q.retain(|ptr| !ptr.is_dropped() && ptr.is_package());
     }
 
     pub fn real_queue_len(&self) -> usize {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 3226647..c6cb575 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -67,7 +67,11 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
-    fn is_package(&self) -> bool {
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
+    pub fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
 }
@@ -137,6 +141,23 @@ impl PendingQueue {
         if self.queue.is_empty() {
             self.need_remove = true
         }
+
+        // Transactions behind one that is dropped before it is committed can not be
+        // packaged until the gap it leaves is filled.
+        let mut gap = false;
+        for (k, v) in self
+            .queue
+            .range((Included(self.current_tip_nonce), Unbounded))
+        {
+            if !gap && v.is_dropped() {
+                gap = true;
+                self.pop_tip_nonce = self.pop_tip_nonce.min(*k);
+            }
+            if gap {
+                v.unset_package();
+            }
+        }
+
         self.queue.retain(|_, v| !v.is_dropped());
     }
 
-- 
2.43.0


From b29b42660190d3c7cab424c771c2b0518e5e8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 23/52] fix: committing a transaction with the largest nonce
 does not panic

---
 core/mempool/src/tx_wrapper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index c6cb575..bd65d5a 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -124,7 +124,7 @@ impl PendingQueue {
         let mut current = self.pop_tip_nonce;
         for (k, v) in self.queue.range((Included(current), Unbounded)) {
             if k == &current {
-                current = current + 1;
+                current = current.saturating_add(U64::one());
                 if v.is_package() {
                     continue;
                 }
@@ -165,7 +165,7 @@ impl PendingQueue {
         for (_, v) in self.queue.range((Included(0.into()), Included(nonce))) {
             v.set_dropped();
         }
-        self.pop_tip_nonce = nonce + 1;
+        self.pop_tip_nonce = nonce.saturating_add(U64::one());
         self.current_tip_nonce = self.pop_tip_nonce;
     }
 
-- 
2.43.0


From f4b0a5a11f56a6933b0f34791fa323195a6c00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 24/52] fix: an interoperation transaction whose CKB-VM program
 rejects the signature is refused by the pool

---
 core/mempool/src/adapter/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 01745c1..e63fbe5 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -308,7 +308,7 @@ where
 
         // Verify interoperation signature call CKB-VM mode
         let r = rlp::decode::<CellDepWithPubKey>(&signature.r[1..]).map_err(AdapterError::Rlp)?;
-        InteroperationImpl::call_ckb_vm(
+        let resp = InteroperationImpl::call_ckb_vm(
             Default::default(),
             &DataProvider::new(root),
             r.cell_dep,
@@ -317,6 +317,15 @@ where
         )
         .map_err(|e| AdapterError::VerifySignature(e.to_string()))?;
 
+        // A script that runs to its end still rejects with a non-zero exit code.
+        if resp.exit_code != 0 {
+            return Err(AdapterError::VerifySignature(format!(
+                "CKB-VM exit code {}",
+                resp.exit_code
+            ))
+            .into());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From d55649040690f958c52dc797a44d616fe140d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 25/52] fix: refunded gas is returned to the sender instead of
 being lost

---
 core/executor/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9c4a803..fa44421 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -349,8 +349,10 @@ impl AxonExecutor {
             ),
         };
 
-        let remained_gas = executor.gas();
+        // The refunded gas is not part of the used gas, so it goes back to the sender
+        // together with the gas that is left.
         let used_gas = executor.used_gas();
+        let remained_gas = gas_limit - used_gas;
 
         let code_addr = if tx.transaction.unsigned.action() == &TransactionAction::Create
             && exit.is_succeed()
-- 
2.43.0


From 5245266be65db7711402d4cc0fddf751b4d8cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 26/52] fix: a transaction whose sender cannot prepay its gas
 any more fails instead of minting the refund

---
 core/executor/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index fa44421..fd0ee04 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -23,7 +23,7 @@ use std::collections::BTreeMap;
 use arc_swap::ArcSwap;
 use common_config_parser::types::spec::HardforkName;
 use evm::executor::stack::{MemoryStackState, PrecompileFn, StackExecutor, StackSubstateMetadata};
-use evm::CreateScheme;
+use evm::{CreateScheme, ExitError};
 
 use common_merkle::TrieMerkle;
 use protocol::traits::{Backend, Executor, ExecutorAdapter};
@@ -313,7 +313,25 @@ impl AxonExecutor {
         let mut account = adapter.get_account(&sender);
         let old_nonce = account.nonce;
 
-        account.balance = account.balance.saturating_sub(prepay_gas);
+        // The pool checks the balance for each transaction alone, an earlier
+        // transaction of the block may have spent it.
+        if account.balance < prepay_gas {
+            account.nonce = old_nonce + U256::one();
+            adapter.save_account(&sender, &account);
+
+            return TxResp {
+                exit_reason:  ExitError::OutOfFund.into(),
+                ret:          vec![],
+                remain_gas:   gas_limit,
+                gas_used:     0,
+                fee_cost:     U256::zero(),
+                logs:         vec![],
+                code_address: None,
+                removed:      false,
+            };
+        }
+
+        account.balance -= prepay_gas;
         adapter.save_account(&sender, &account);
 
         let metadata = StackSubstateMetadata::new(gas_limit, config);
-- 
2.43.0


From 79b8e2b32f2c570ecf0b7d1940a3478302aa5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 27/52] fix: a reverted system call collects no fee that nobody
 paid

---
 core/executor/src/system_contract/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/utils.rs b/core/executor/src/system_contract/utils.rs
index 48d89bd..b7a5947 100644
--- a/core/executor/src/system_contract/utils.rs
+++ b/core/executor/src/system_contract/utils.rs
@@ -16,7 +16,7 @@ pub fn revert_resp(gas_limit: U64) -> TxResp {
         ret:          vec![],
         gas_used:     (gas_limit - 1).low_u64(),
         remain_gas:   1u64,
-        fee_cost:     U256::one(),
+        fee_cost:     U256::zero(),
         logs:         vec![],
         code_address: None,
         removed:      false,
-- 
2.43.0


From 9ff59a2124e678ab4a2bc3df94d9b470c45aa223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 28/52] fix: issuing native tokens beyond 256 bits reverts
 instead of panicking

---
 core/executor/src/system_contract/native_token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/native_token.rs b/core/executor/src/system_contract/native_token.rs
index 3e8dd07..d724bff 100644
--- a/core/executor/src/system_contract/native_token.rs
+++ b/core/executor/src/system_contract/native_token.rs
@@ -29,7 +29,10 @@ impl<Adapter: ExecutorAdapter + ApplyBackend> SystemContract<Adapter>
         let mut account = backend.basic(l2_addr);
 
         if direction {
-            account.balance += tx_value;
+            account.balance = match account.balance.checked_add(tx_value) {
+                Some(balance) => balance,
+                None => return revert_resp(gas_limit),
+            };
         } else {
             if account.balance < tx_value {
                 return revert_resp(gas_limit);
-- 
2.43.0


From b0aeb2a38e10e973321e703d42a8414f57c3f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 29/52] fix: a ModExp input with an exponent length of 2^61 or
 more overflowed and panicked

---
 core/executor/src/precompiles/modexp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/precompiles/modexp.rs b/core/executor/src/precompiles/modexp.rs
index 814e51b..8622693 100644
--- a/core/executor/src/precompiles/modexp.rs
+++ b/core/executor/src/precompiles/modexp.rs
@@ -200,10 +200,11 @@ fn iterator_count(e_size: Integer, exponent: Integer) -> u64 {
         let bytes: [u8; 32] = [0xFF; 32];
         let max_256_bit_uint = Integer::from_digits(&bytes, Order::MsfBe);
         let a: Integer = 8 * (e_size - 32);
-        a.saturating_as::<usize>()
-            + ((exponent.bitand(max_256_bit_uint))
+        a.saturating_as::<usize>().saturating_add(
+            (exponent.bitand(max_256_bit_uint))
                 .significant_bits()
-                .saturating_sub(1)) as usize
+                .saturating_sub(1) as usize,
+        )
     };
 
     iter_count.max(1) as u64
-- 
2.43.0


From 7b8fba83b256730c682e0265abce554dff72105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 30/52] fix: EcRecover failed on an invalid signature, where
 Ethereum's returns nothing

---
 core/executor/src/precompiles/ecrecover.rs | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/core/executor/src/precompiles/ecrecover.rs b/core/executor/src/precompiles/ecrecover.rs
index 434a0f6..a956d02 100644
--- a/core/executor/src/precompiles/ecrecover.rs
+++ b/core/executor/src/precompiles/ecrecover.rs
@@ -31,30 +31,19 @@ impl PrecompileContract for EcRecover {
         let len = origin_input.len().min(128);
         input[..len].copy_from_slice(&origin_input[..len]);
 
-        let sig = match recover_signature(&input) {
-            Some(value) => value,
-            None => {
-                return err!("Invalid signature");
-            }
+        // As in Ethereum, nothing is returned for an invalid signature.
+        let output = match recover_address(&input) {
+            Some(addr) => addr.to_vec(),
+            None => Vec::new(),
         };
 
-        if let Ok(s) = Secp256k1RecoverableSignature::try_from(sig.as_slice()) {
-            if let Ok(p) = secp256k1_recover(&input[0..32], &s.to_bytes()) {
-                let r = Hasher::digest(&p.serialize_uncompressed()[1..65]);
-                let mut recover = [0u8; 32];
-                recover[12..].copy_from_slice(&r.as_bytes()[12..]);
-
-                return Ok((
-                    PrecompileOutput {
-                        exit_status: ExitSucceed::Returned,
-                        output:      recover.to_vec(),
-                    },
-                    gas,
-                ));
-            }
-        }
-
-        err!("Verify signature failed")
+        Ok((
+            PrecompileOutput {
+                exit_status: ExitSucceed::Returned,
+                output,
+            },
+            gas,
+        ))
     }
 
     fn gas_cost(_input: &[u8]) -> u64 {
@@ -62,6 +51,17 @@ impl PrecompileContract for EcRecover {
     }
 }
 
+fn recover_address(input: &[u8; 128]) -> Option<[u8; 32]> {
+    let raw = recover_signature(input)?;
+    let sig = Secp256k1RecoverableSignature::try_from(raw.as_slice()).ok()?;
+    let key = secp256k1_recover(&input[0..32], &sig.to_bytes()).ok()?;
+    let digest = Hasher::digest(&key.serialize_uncompressed()[1..65]);
+
+    let mut addr = [0u8; 32];
+    addr[12..].copy_from_slice(&digest.as_bytes()[12..]);
+    Some(addr)
+}
+
 fn recover_signature(input: &[u8]) -> Option<[u8; 65]> {
     let mut ret = [0u8; 65];
     ret[0..64].copy_from_slice(&input[64..128]);
-- 
2.43.0


From f6bd217a4dab8b95221c10bc624f8795524d14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 31/52] fix: EcPairing ignored the end of an input that is not
 a number of pairs

---
 core/executor/src/precompiles/ec_pairing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/executor/src/precompiles/ec_pairing.rs b/core/executor/src/precompiles/ec_pairing.rs
index 70cbc05..9b0d2c4 100644
--- a/core/executor/src/precompiles/ec_pairing.rs
+++ b/core/executor/src/precompiles/ec_pairing.rs
@@ -42,6 +42,10 @@ impl PrecompileContract for EcPairing {
             }
         }
 
+        if input.len() % Self::GROUP_ARGS_LEN != 0 {
+            return err!("Invalid input length");
+        }
+
         let elements = input.len() / Self::GROUP_ARGS_LEN;
         let mut pairs = Vec::with_capacity(elements);
 
-- 
2.43.0


From 6f12aced1cde0a3fc09910b302b497ef2c2bb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 32/52] fix: EcAdd and EcMul failed on a short input, which
 EIP-196 extends with zeros

---
 core/executor/src/precompiles/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/executor/src/precompiles/mod.rs b/core/executor/src/precompiles/mod.rs
index b146b08..00874a1 100644
--- a/core/executor/src/precompiles/mod.rs
+++ b/core/executor/src/precompiles/mod.rs
@@ -101,15 +101,21 @@ pub fn build_precompile_set() -> BTreeMap<H160, PrecompileFn> {
     )
 }
 
-pub(crate) fn read_point(input: &[u8], start: usize) -> Result<G1, PrecompileFailure> {
-    if input.len() < start + 64 {
-        return err!("Invalid input length");
+/// Read 32 bytes, those that are beyond the end of the input are zero.
+fn read_word(input: &[u8], start: usize) -> [u8; 32] {
+    let mut word = [0u8; 32];
+    if start < input.len() {
+        let end = input.len().min(start + 32);
+        word[..end - start].copy_from_slice(&input[start..end]);
     }
+    word
+}
 
-    let px =
-        Fq::from_slice(&input[start..(start + 32)]).map_err(|_| err!(_, "Invalid X coordinate"))?;
+pub(crate) fn read_point(input: &[u8], start: usize) -> Result<G1, PrecompileFailure> {
+    let px = Fq::from_slice(&read_word(input, start))
+        .map_err(|_| err!(_, "Invalid X coordinate"))?;
 
-    let py = Fq::from_slice(&input[(start + 32)..(start + 64)])
+    let py = Fq::from_slice(&read_word(input, start + 32))
         .map_err(|_| err!(_, "Invalid Y coordinate"))?;
 
     let ret = if px == Fq::zero() && py == Fq::zero() {
@@ -124,9 +130,5 @@ pub(crate) fn read_point(input: &[u8], start: usize) -> Result<G1, PrecompileFai
 }
 
 pub(crate) fn read_fr(input: &[u8], start: usize) -> Result<Fr, PrecompileFailure> {
-    if input.len() < start + 32 {
-        return err!("Invalid input length");
-    }
-
-    Fr::from_slice(&input[start..(start + 32)]).map_err(|_| err!(_, "Invalid field element"))
+    Fr::from_slice(&read_word(input, start)).map_err(|_| err!(_, "Invalid field element"))
 }
-- 
2.43.0


From bdf6b225e97d033046d7ef05f550b32b2669d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 33/52] fix: two leaves with index 2^32-1 in a CKB MBT proof
 overflowed and panicked

---
 core/executor/src/precompiles/ckb_mbt_verify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/executor/src/precompiles/ckb_mbt_verify.rs b/core/executor/src/precompiles/ckb_mbt_verify.rs
index 5b9c95b..2cd350b 100644
--- a/core/executor/src/precompiles/ckb_mbt_verify.rs
+++ b/core/executor/src/precompiles/ckb_mbt_verify.rs
@@ -105,6 +105,11 @@ fn inner_verify_proof(payload: VerifyProofPayload) -> Result<(), PrecompileFailu
         witnesses_root
     };
 
+    // The last index has no sibling in the tree, to compute one overflows.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(err!(_, "invalid index"));
+    }
+
     if MerkleProof::new(payload.proof.indices, lemmas).verify(&verifying_root, &leaves) {
         return Ok(());
     }
-- 
2.43.0


From f25c42d060225d7908fcb89642a24545cde8eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 34/52] fix: a call with more than 2^64/6000 gas of the CKB-VM
 precompile overflowed and panicked

---
 core/interoperation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/interoperation/src/lib.rs b/core/interoperation/src/lib.rs
index 8267268..c0ee7c4 100644
--- a/core/interoperation/src/lib.rs
+++ b/core/interoperation/src/lib.rs
@@ -13,7 +13,7 @@ const ISA: u8 = ISA_IMC | ISA_B | ISA_MOP;
 const GAS_TO_CYCLE_COEF: u64 = 6_000;
 
 pub const fn gas_to_cycle(gas: u64) -> u64 {
-    gas * GAS_TO_CYCLE_COEF
+    gas.saturating_mul(GAS_TO_CYCLE_COEF)
 }
 
 pub const fn cycle_to_gas(cycle: u64) -> u64 {
-- 
2.43.0


From aa64470fe80f66ad5757cfaada461aebebaca2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 35/52] fix: the length in a revert message can be any number

---
 core/executor/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..e0dfa37 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -62,14 +62,14 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    // The length comes from the contract, it can be anything.
+    let msg_len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
 
-    if input.len() < end_offset {
+    if msg_len > U256::from(input.len() - REVERT_EFFECT_MSG_OFFSET) {
         return decode_reason(input);
     }
 
-    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
+    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..REVERT_EFFECT_MSG_OFFSET + msg_len.as_usize()])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 441bca5e5dcf881a43dfb96a86cedf051867b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 36/52] fix: an unknown filter id above 2^64 ends the filter
 task

---
 core/api/src/jsonrpc/error.rs       | 4 ++--
 core/api/src/jsonrpc/impl/filter.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index ba0701c..7106830 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -1,6 +1,6 @@
 use jsonrpsee::types::{error::ErrorObject, ErrorObjectOwned};
 
-use protocol::types::{ExitReason, TxResp};
+use protocol::types::{ExitReason, TxResp, U256};
 use protocol::{codec::hex_encode, Display};
 
 use core_executor::decode_revert_msg;
@@ -48,7 +48,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid from block number and to block number union")]
     InvalidFromBlockAndToBlockUnion,
     #[display(fmt = "Invalid filter id {}", _0)]
-    CannotFindFilterId(u64),
+    CannotFindFilterId(U256),
     #[display(fmt = "Not allow to call system contract address")]
     CallSystemContract,
 
diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..acb533a 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -246,7 +246,7 @@ where
             sender.send(res).unwrap()
         } else {
             sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
+                .send(Err(RpcError::CannotFindFilterId(id).into()))
                 .unwrap()
         }
     }
-- 
2.43.0


From a91313a2e0e210f683400900ea5255aa93cc3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 37/52] fix: a transaction position above 2^64 panics

---
 core/api/src/jsonrpc/error.rs     | 2 +-
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index 7106830..b4ed80b 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -40,7 +40,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid newest block {:?}", _0)]
     InvalidNewestBlock(BlockId),
     #[display(fmt = "Invalid position {}", _0)]
-    InvalidPosition(u64),
+    InvalidPosition(U256),
     #[display(fmt = "Cannot find the block")]
     CannotFindBlock,
     #[display(fmt = "Invalid reward percentiles {} {}", _0, _1)]
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..8612260 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -910,7 +910,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
@@ -941,7 +941,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From da58a33e7e46faae98b0961a7f7bd29e06fda74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 38/52] fix: an unknown block hash is not the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 8612260..a5e9ea4 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .ok_or(RpcError::CannotFindBlock)
+                .map(Some),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -371,12 +373,9 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
-                let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+            b => {
+                let number = self.get_block_number_by_id(Some(b)).await?;
+
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
@@ -384,12 +383,6 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce)
                     .unwrap_or_default())
             }
-            b => Ok(self
-                .adapter
-                .get_account(Context::new(), address, b.into())
-                .await
-                .map(|account| account.nonce)
-                .unwrap_or_default()),
         }
     }
 
-- 
2.43.0


From a2820e6d316f6a1d5157c297b739caa03d6bfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 39/52] fix: a block named by its hash is not the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index a5e9ea4..adfe741 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -269,9 +269,11 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         number: BlockId,
         show_rich_tx: bool,
     ) -> RpcResult<Option<Web3Block>> {
+        let number = self.get_block_number_by_id(Some(number)).await?;
+
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
@@ -465,10 +467,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
@@ -510,9 +509,11 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 
     #[metrics_rpc("eth_getBlockTransactionCountByNumber")]
     async fn get_block_transaction_count_by_number(&self, number: BlockId) -> RpcResult<U256> {
+        let number = self.get_block_number_by_id(Some(number)).await?;
+
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
         let count = match block {
@@ -945,9 +946,11 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         raw_index.copy_from_slice(&raw[..8]);
         let index = usize::from_le_bytes(raw_index);
 
+        let number = self.get_block_number_by_id(Some(number)).await?;
+
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
-- 
2.43.0


From fcd8f5dd61287096c9e8be65f893edbf6f41ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 40/52] fix: the effective gas price is the price and not the
 gas

---
 core/api/src/jsonrpc/web3_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 07ed454..6824ee1 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -216,7 +216,7 @@ impl Web3Receipt {
             block_hash:          receipt.block_hash,
             contract_address:    receipt.code_address.map(Into::into),
             cumulative_gas_used: receipt.used_gas,
-            effective_gas_price: receipt.used_gas,
+            effective_gas_price: stx.transaction.unsigned.gas_price(),
             from:                receipt.sender,
             status:              receipt.status(),
             gas_used:            receipt.used_gas,
-- 
2.43.0


From 46d88f576851021fe7822811c1a749901a694e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 41/52] fix: the fee history of the whole chain starts at the
 genesis block

---
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index adfe741..9f8d928 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -149,8 +149,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
 
         let latest_block_number = latest_block.header.number;
         let oldest_block_number = latest_block_number
-            .saturating_sub(block_count.as_u64())
-            .saturating_add(1);
+            .saturating_add(1)
+            .saturating_sub(block_count.as_u64());
 
         let mut bash_fee_per_gases: Vec<U64> = Vec::new();
         let mut gas_used_ratios: Vec<f64> = Vec::new();
-- 
2.43.0


From 1a3136440f09d27aeea86d60c63dcba062eba4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 42/52] fix: the fee history has one base fee per block and one
 for the next

---
 core/api/src/jsonrpc/impl/web3.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 9f8d928..8a6959b 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -169,7 +169,6 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             let gas_used_ratio = calculate_gas_used_ratio(&block);
             gas_used_ratios.push(gas_used_ratio);
             bash_fee_per_gases.push(block.header.base_fee_per_gas);
-            bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
             if let Some(reward_percentiles) = reward_percentiles.clone() {
                 let txs = block.tx_hashes;
@@ -184,6 +183,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             }
         }
 
+        bash_fee_per_gases.push(next_block_base_fee_per_gas());
+
         Ok((
             oldest_block_number,
             bash_fee_per_gases,
-- 
2.43.0


From c930c8ed5f4c38cf6d284535bfb02f593b1e3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 43/52] fix: the last reward percentile is checked too

---
 core/api/src/jsonrpc/impl/web3.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 8a6959b..20795d4 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1054,17 +1054,21 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 // 1. checks for rewardPercentile's sorted-ness
 // 2. check if any of rewardPercentile is greater than 100 or less than 0
 fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<()> {
-    reward_percentiles
-        .as_ref()
-        .and_then(|percentiles| {
-            percentiles
-                .windows(2)
-                .enumerate()
-                .find(|(_, window)| window[0] >= window[1] || window[0] < 0.0 || window[0] > 100.0)
-                .map(|(_, vec)| vec)
-        })
-        .map(|vec| Err(RpcError::InvalidRewardPercentiles(vec[0], vec[1]).into()))
-        .unwrap_or(Ok(()))
+    let percentiles = match reward_percentiles {
+        Some(percentiles) => percentiles,
+        None => return Ok(()),
+    };
+
+    for (index, percentile) in percentiles.iter().enumerate() {
+        let next = *percentiles.get(index + 1).unwrap_or(percentile);
+        if !(0.0..=100.0).contains(percentile)
+            || (index + 1 < percentiles.len() && *percentile >= next)
+        {
+            return Err(RpcError::InvalidRewardPercentiles(*percentile, next).into());
+        }
+    }
+
+    Ok(())
 }
 
 // Calculates the gas used ratio for the block.
-- 
2.43.0


From 501d9a0aca9ba54503481795c3a7be2495348960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 44/52] fix: a filter that is polled does not expire when there
 is no new block

---
 core/api/src/jsonrpc/impl/filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index acb533a..b0c5d88 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -259,6 +259,8 @@ where
             .await
             .unwrap()
             .unwrap();
+        *time = Instant::now();
+
         if *start >= latest.header.number {
             return Vec::new();
         }
@@ -279,7 +281,6 @@ where
         block_hashes.push(latest.hash());
 
         *start = latest.header.number;
-        *time = Instant::now();
 
         block_hashes
     }
@@ -287,6 +288,8 @@ where
     async fn filter_logs(&mut self, id: &U256) -> RpcResult<Vec<Web3Log>> {
         let (filter, time) = self.logs_hub.get_mut(id).unwrap();
 
+        *time = Instant::now();
+
         let topics = filter.topics.as_slice();
 
         let mut all_logs = Vec::new();
@@ -383,7 +386,6 @@ where
         if let Some(BlockId::Num(ref mut n)) = filter.from_block {
             *n = U64::from(end + 1)
         }
-        *time = Instant::now();
         Ok(all_logs)
     }
 }
-- 
2.43.0


From 8a911ed83ff1f1ba09cfddb09a5becd53b74aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 45/52] fix: a block number above 2^64 is not that of another
 block

---
 core/api/src/jsonrpc/impl/axon.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/axon.rs b/core/api/src/jsonrpc/impl/axon.rs
index 098a5c9..84b51d8 100644
--- a/core/api/src/jsonrpc/impl/axon.rs
+++ b/core/api/src/jsonrpc/impl/axon.rs
@@ -52,7 +52,7 @@ impl<Adapter: APIAdapter + 'static> AxonRpcServer for AxonRpcImpl<Adapter> {
     async fn get_metadata_by_number(&self, block_number: U256) -> RpcResult<Metadata> {
         let ret = self
             .adapter
-            .get_metadata_by_number(Context::new(), Some(block_number.low_u64()))
+            .get_metadata_by_number(Context::new(), Some(to_block_number(block_number)?))
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
@@ -60,7 +60,7 @@ impl<Adapter: APIAdapter + 'static> AxonRpcServer for AxonRpcImpl<Adapter> {
     }
 
     async fn get_proposal_by_number(&self, block_number: U256) -> RpcResult<Proposal> {
-        let block_number = block_number.low_u64();
+        let block_number = to_block_number(block_number)?;
 
         let prev_state_root = if block_number == 0 {
             H256::default()
@@ -157,6 +157,14 @@ impl<Adapter: APIAdapter + 'static> AxonRpcServer for AxonRpcImpl<Adapter> {
     }
 }
 
+fn to_block_number(block_number: U256) -> RpcResult<u64> {
+    if block_number > U256::from(u64::MAX) {
+        return Err(RpcError::CannotFindBlock.into());
+    }
+
+    Ok(block_number.low_u64())
+}
+
 /// Returns (enabled_flags, determined_flags) in target block height
 fn enabled_and_determined(iter: &[HardforkInfoInner], current_number: u64) -> (H256, H256) {
     if iter.len() < 2 {
-- 
2.43.0


From 2ade05efbd56ac037d997549d5ffa2f9c5b851cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 46/52] fix: await the messages sent to subscribers

jsonrpsee's send is async: without an await nothing is ever delivered.
---
 core/api/src/jsonrpc/ws_subscription.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..e3e8a29 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.send(msg.clone()).await;
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -153,7 +153,7 @@ where
 
             for hub in self.sync_hubs.iter_mut() {
                 // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -198,7 +198,7 @@ where
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
                             // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.send(msg).await;
                         }
                     }
                     index += log_len;
-- 
2.43.0


From 6e800f59588222545cc7d3643aa96b3f39b247ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 47/52] fix: the transaction index of a subscribed log is its
 transaction's position

---
 core/api/src/jsonrpc/ws_subscription.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index e3e8a29..0d0fa95 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -182,10 +182,8 @@ where
                     .await
                     .unwrap();
 
-                let mut index = 0;
                 let mut logs = Vec::new();
-                for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
+                for (index, receipt) in receipts.into_iter().flatten().enumerate() {
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
                             index,
@@ -201,7 +199,6 @@ where
                             let _ignore = hub.sink.send(msg).await;
                         }
                     }
-                    index += log_len;
                 }
             }
         }
-- 
2.43.0


From 3bf1f867c777c2ab7c3b996a928da17e79ccab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 48/52] fix: a client that hangs up does not end the filter
 task

The oneshot receiver of a cancelled request is dropped; unwrapping the
send then panicked the task that serves every client's filters.
---
 core/api/src/jsonrpc/impl/filter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index b0c5d88..96a8cd8 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -212,7 +212,7 @@ where
                 }
 
                 self.logs_hub.insert(id, (filter, Instant::now()));
-                sender.send(id).unwrap()
+                let _ignore = sender.send(id);
             }
             Command::NewBlocks(sender) => {
                 let id = random_id();
@@ -223,13 +223,13 @@ where
                     .unwrap()
                     .unwrap();
                 self.blocks_hub.insert(id, (header.number, Instant::now()));
-                sender.send(id).unwrap()
+                let _ignore = sender.send(id);
             }
             Command::FilterRequest((id, sender)) => self.impl_filter(id, sender).await,
             Command::Uninstall((id, sender)) => {
                 let removed =
                     self.blocks_hub.remove(&id).is_some() || self.logs_hub.remove(&id).is_some();
-                sender.send(removed).unwrap()
+                let _ignore = sender.send(removed);
             }
         }
     }
@@ -237,17 +237,15 @@ where
     async fn impl_filter(&mut self, id: U256, sender: oneshot::Sender<RpcResult<FilterChanges>>) {
         if self.blocks_hub.contains_key(&id) {
             let res = Ok(FilterChanges::Blocks(self.filter_block(&id).await));
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else if self.logs_hub.contains_key(&id) {
             let res = self.filter_logs(&id).await.map(FilterChanges::Logs);
             if res.is_err() {
                 self.logs_hub.remove(&id);
             }
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else {
-            sender
-                .send(Err(RpcError::CannotFindFilterId(id).into()))
-                .unwrap()
+            let _ignore = sender.send(Err(RpcError::CannotFindFilterId(id).into()));
         }
     }
 
-- 
2.43.0


From 088f33e1f86fbd0f8418baf0a18ddadfc91ab09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 49/52] fix: a trie cache of size 0 does not panic

---
 core/executor/src/adapter/trie/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/adapter/trie/db.rs b/core/executor/src/adapter/trie/db.rs
index 3bfaa1f..572dc71 100644
--- a/core/executor/src/adapter/trie/db.rs
+++ b/core/executor/src/adapter/trie/db.rs
@@ -176,7 +176,7 @@ impl RocksTrieDB {
 }
 
 fn rand_remove_list<T: Clone>(keys: Vec<&T>, num: usize) -> impl Iterator<Item = T> {
-    let mut len = keys.len() - 1;
+    let mut len = keys.len();
     let mut idx_list = (0..len).collect::<Vec<_>>();
     let mut rng = SmallRng::seed_from_u64(RAND_SEED);
     let mut ret = Vec::with_capacity(num);
-- 
2.43.0


From f565dcab7e055bdd9732a5e0aab1605bce60c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 50/52] fix: the library's proof check refuses the index
 without sibling

---
 devtools/axon-tools/src/precompile.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/devtools/axon-tools/src/precompile.rs b/devtools/axon-tools/src/precompile.rs
index ccfe4ca..67a895e 100644
--- a/devtools/axon-tools/src/precompile.rs
+++ b/devtools/axon-tools/src/precompile.rs
@@ -84,6 +84,11 @@ pub fn verify_proof(payload: VerifyProofPayload) -> Result<(), String> {
         witnesses_root
     };
 
+    // The last index has no sibling in the tree, to compute one overflows.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(String::from("invalid index"));
+    }
+
     if MerkleProof::new(payload.proof.indices, lemmas).verify(&verifying_root, &leaves) {
         return Ok(());
     }
-- 
2.43.0


From 73d2f4ecf552c12b0d46a8eb9afa92ca0bc871c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:43 +0000
Subject: [PATCH 51/52] fix: a CKB program's instructions cost cycles

---
 core/interoperation/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/interoperation/src/lib.rs b/core/interoperation/src/lib.rs
index c0ee7c4..3347360 100644
--- a/core/interoperation/src/lib.rs
+++ b/core/interoperation/src/lib.rs
@@ -2,6 +2,7 @@ use std::error::Error;
 
 use ckb_traits::CellDataProvider;
 use ckb_types::packed;
+use ckb_vm::cost_model::estimate_cycles;
 use ckb_vm::machine::{asm::AsmCoreMachine, DefaultMachineBuilder, SupportMachine, VERSION1};
 use ckb_vm::{Error as VMError, ISA_B, ISA_IMC, ISA_MOP};
 
@@ -53,7 +54,9 @@ impl Interoperation for InteroperationImpl {
             .get_cell_data(&data_cell_dep.out_point())
             .ok_or_else(|| InteroperationError::GetProgram((&data_cell_dep.out_point()).into()))?;
         let mut vm = ckb_vm::machine::asm::AsmMachine::new(
-            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles)).build(),
+            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles))
+                .instruction_cycle_func(Box::new(estimate_cycles))
+                .build(),
         );
         let _ = vm
             .load_program(&program, args)
-- 
2.43.0


From 11b1711dc369f41daf8daf0c4fbee1d7a336e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 52/52] fix: a stored CKB header with a malformed epoch is
 returned, not a panic

---
 core/executor/src/system_contract/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/system_contract/mod.rs b/core/executor/src/system_contract/mod.rs
index 148b060..23370c3 100644
--- a/core/executor/src/system_contract/mod.rs
+++ b/core/executor/src/system_contract/mod.rs
@@ -22,7 +22,7 @@ use std::sync::Arc;
 
 use ckb_traits::{CellDataProvider, ExtensionProvider, HeaderProvider};
 use ckb_types::core::cell::{CellProvider, CellStatus};
-use ckb_types::core::{HeaderBuilder, HeaderView};
+use ckb_types::core::HeaderView;
 use ckb_types::{packed, prelude::*};
 use evm::backend::ApplyBackend;
 use parking_lot::RwLock;
@@ -282,7 +282,7 @@ impl HeaderProvider for DataProvider {
             .ok()
             .flatten()
             .map(|h| {
-                HeaderBuilder::default()
+                let raw = packed::RawHeader::new_builder()
                     .version(h.version.pack())
                     .parent_hash(h.parent_hash.pack())
                     .timestamp(h.timestamp.pack())
@@ -293,8 +293,12 @@ impl HeaderProvider for DataProvider {
                     .extra_hash(h.extra_hash.pack())
                     .compact_target(h.compact_target.pack())
                     .dao(h.dao.pack())
+                    .build();
+                packed::Header::new_builder()
+                    .raw(raw)
                     .nonce(h.nonce.pack())
                     .build()
+                    .into_view()
             })
     }
 }
-- 
2.43.0

