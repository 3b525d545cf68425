From 478b915927d19d88a85e2c2920ce880bfce3face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/57] fix: refuse to add elements of a different length to a
 merkle trie

Trie::add documents that all elements must be of the same size, and delete
enforces it, but add did not: a shorter element made it panic and a longer
one corrupted the trie.
---
 src/crypto/merkletrie/trie.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index ff0e65e..25a223b 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -86,6 +86,9 @@ impl Trie {
             return Ok(true);
         }
 
+        if d.len() != self.element_length as usize {
+            return Err(TrieError::ElementLengthMismatch);
+        }
         let pnode = self.cache.get_node(self.root.unwrap())?;
         if pnode.find(&mut self.cache, d)? {
             return Ok(false);
-- 
2.43.0


From ef281f736fd097cdf0e4fff94257f8bcb28b2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 02/57] fix: bound the hash length when decoding merkle trie
 nodes

A corrupt length prefix made Node::deserialize panic with a capacity
overflow or allocate arbitrary amounts of memory.
---
 src/crypto/merkletrie/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 4a70297..565d810 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -235,7 +235,10 @@ impl Node {
     pub fn deserialize(buf: &[u8]) -> Option<Node> {
         let mut cursor = std::io::Cursor::new(buf);
         let mut n = Node::default();
-        let hash_length = cursor.read_varint().ok()?;
+        let hash_length: usize = cursor.read_varint().ok()?;
+        if hash_length > buf.len() {
+            return None;
+        }
         n.hash = vec![0; hash_length];
         cursor.read_exact(&mut n.hash).ok()?;
         let mut is_inner = 0_u8;
-- 
2.43.0


From ffd37d822c9659cf379d98af01f96cda51699914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 03/57] fix: undo failed merkle trie operations

A storage error in the middle of Trie::add or Trie::delete left the trie
half-updated, an error on the first addition made it panic, and cached nodes
could not be used while the storage was unavailable. Operations now run in a
transaction which is rolled back on failure (as in go-algorand), and the
cache is consulted before the storage.
---
 src/crypto/merkletrie/cache.rs | 62 +++++++++++++++++++++++++++-------
 src/crypto/merkletrie/trie.rs  | 44 ++++++++++++++----------
 2 files changed, 75 insertions(+), 31 deletions(-)

diff --git a/src/crypto/merkletrie/cache.rs b/src/crypto/merkletrie/cache.rs
index 4ad2a45..992f227 100644
--- a/src/crypto/merkletrie/cache.rs
+++ b/src/crypto/merkletrie/cache.rs
@@ -28,6 +28,8 @@ pub struct MerkleTrieCache {
     pub storage: Box<dyn Storage>,
     cache: HashMap<NodeID, Node>,
     next_node_id: NodeID,
+    /// Previous values of the nodes changed by the current transaction (if there is one).
+    undo_log: Option<Vec<(NodeID, Option<Node>)>>,
 }
 
 impl MerkleTrieCache {
@@ -37,6 +39,41 @@ impl MerkleTrieCache {
             storage: Box::new(storage),
             cache: HashMap::new(),
             next_node_id: 0,
+            undo_log: None,
+        }
+    }
+
+    /// Starts recording changes, so that they can be undone by `rollback_transaction`.
+    pub fn begin_transaction(&mut self) {
+        self.undo_log = Some(Vec::new());
+    }
+
+    /// Makes the changes since the last call to `begin_transaction` permanent.
+    pub fn commit_transaction(&mut self) {
+        self.undo_log = None;
+    }
+
+    /// Undoes all changes since the last call to `begin_transaction`.
+    /// The storage is restored as far as it is accessible.
+    pub fn rollback_transaction(&mut self) {
+        for (id, node) in self.undo_log.take().into_iter().flatten().rev() {
+            let mut buf = Vec::new();
+            match node {
+                Some(node) => {
+                    node.serialize(&mut buf);
+                    self.cache.insert(id, node);
+                }
+                None => {
+                    self.cache.remove(&id);
+                }
+            }
+            let _ = self.storage.store_node(id, &buf);
+        }
+    }
+
+    fn log_change(&mut self, id: NodeID) {
+        if let Some(undo_log) = &mut self.undo_log {
+            undo_log.push((id, self.cache.get(&id).cloned()));
         }
     }
 
@@ -45,6 +82,7 @@ impl MerkleTrieCache {
         let id = self.next_node_id;
         self.next_node_id += 1;
         let new_node = Node::default();
+        self.log_change(id);
         self.cache.insert(id, new_node.clone());
         (new_node, id)
     }
@@ -52,32 +90,30 @@ impl MerkleTrieCache {
     /// Retrieves the given node by its identifier, loading it from storage if it cannot be found in cache,
     /// and returning an error if it's neither in cache nor in storage.
     pub fn get_node(&mut self, id: NodeID) -> Result<Node, CacheError> {
-        Ok(self
-            .cache
-            .entry(id)
-            .or_insert(match self.storage.load_node(id)? {
-                None => return Err(CacheError::MissingNode),
-                Some(node_data) => match Node::deserialize(&node_data) {
-                    None => return Err(CacheError::NodeDecodingFailure),
-                    Some(node) => node,
-                },
-            })
-            .clone())
+        if let Some(node) = self.cache.get(&id) {
+            return Ok(node.clone());
+        }
+        let node_data = self.storage.load_node(id)?.ok_or(CacheError::MissingNode)?;
+        let node = Node::deserialize(&node_data).ok_or(CacheError::NodeDecodingFailure)?;
+        self.cache.insert(id, node.clone());
+        Ok(node)
     }
 
     pub fn set_node(&mut self, id: NodeID, node: Node) -> Result<(), CacheError> {
         let mut buf = Vec::new();
         node.serialize(&mut buf);
-        self.cache.insert(id, node);
+        self.log_change(id);
         self.storage.store_node(id, &buf)?;
+        self.cache.insert(id, node);
         Ok(())
     }
 
     /// Marks the given node to be deleted, or (if it was never flushed) deletes it right away.
     // TODO adapt once we support transactions again
     pub fn delete_node(&mut self, id: NodeID) -> Result<(), CacheError> {
-        self.cache.remove(&id);
+        self.log_change(id);
         self.storage.store_node(id, &[])?;
+        self.cache.remove(&id);
         Ok(())
     }
 }
diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index 25a223b..df0b19e 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -77,11 +77,15 @@ impl Trie {
     /// Returns false if the item already exists.
     pub fn add(&mut self, d: &[u8]) -> Result<bool, TrieError> {
         if self.root == None {
+            self.cache.begin_transaction();
             let (mut pnode, id) = self.cache.allocate_new_node();
-            self.root = Some(id);
-            //self.cache.commit_transaction();
             pnode.hash = d.to_vec();
-            self.cache.set_node(id, pnode).unwrap();
+            if let Err(e) = self.cache.set_node(id, pnode) {
+                self.cache.rollback_transaction();
+                return Err(TrieError::CacheAccessError(e));
+            }
+            self.cache.commit_transaction();
+            self.root = Some(id);
             self.element_length = d.len() as u32;
             return Ok(true);
         }
@@ -94,16 +98,15 @@ impl Trie {
             return Ok(false);
         }
 
-        //self.cache.begin_transaction(&mut self);
-        match pnode.add(&mut self.cache, d, &Vec::new()) {
-            Ok(updated_root) => {
-                self.cache.delete_node(self.root.unwrap())?;
-                self.root = Some(updated_root);
-                //self.cache.commit_transaction();
+        self.cache.begin_transaction();
+        let res = pnode.add(&mut self.cache, d, &Vec::new());
+        match res.and_then(|id| self.replace_root(id)) {
+            Ok(()) => {
+                self.cache.commit_transaction();
                 Ok(true)
             }
             Err(e) => {
-                //self.cache.rollback_transaction(&mut self);
+                self.cache.rollback_transaction();
                 Err(TrieError::CacheAccessError(e))
             }
         }
@@ -121,29 +124,34 @@ impl Trie {
         if !pnode.find(&mut self.cache, d)? {
             return Ok(false);
         }
-        //mt.cache.beginTransaction()
         if pnode.is_leaf() {
             // remove the root.
             self.cache.delete_node(self.root.unwrap())?;
             self.root = None;
-            //self.cache.commitTransaction()
             self.element_length = 0;
             return Ok(true);
         }
-        match pnode.remove(&mut self.cache, d, &[]) {
+        self.cache.begin_transaction();
+        let res = pnode.remove(&mut self.cache, d, &[]);
+        match res.and_then(|id| self.replace_root(id)) {
             Err(e) => {
-                //self.cache.rollbackTransaction()
+                self.cache.rollback_transaction();
                 Err(TrieError::CacheAccessError(e))
             }
-            Ok(updated_root) => {
-                self.cache.delete_node(self.root.unwrap())?;
-                //self.cache.commitTransaction()
-                self.root = Some(updated_root);
+            Ok(()) => {
+                self.cache.commit_transaction();
                 Ok(true)
             }
         }
     }
 
+    /// Deletes the current root node and makes the given node the root instead.
+    fn replace_root(&mut self, updated_root: NodeID) -> Result<(), CacheError> {
+        self.cache.delete_node(self.root.unwrap())?;
+        self.root = Some(updated_root);
+        Ok(())
+    }
+
     fn print(&mut self) {
         //print!("Root: {:?}", self.root);
         print!("Root: {:?}", self.root.is_some());
-- 
2.43.0


From 60ffeb28871e907225a157b7a65306f08b498096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 04/57] hook: expose multisig operations to the verification
 harness under cfg(verif)

---
 src/crypto/multisig.rs | 52 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index ca46aa3..3bff34f 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -746,3 +746,55 @@ mod tests {
         assert_eq!(msig.verify(tx, &addr), Err(MultisigError::InvalidAddress));
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub type MsigResult<T> = Result<T, MultisigError>;
+
+    pub fn addr(bytes: [u8; 32]) -> MultisigAddr {
+        MultisigAddr(bytes)
+    }
+
+    pub fn addr_bytes(addr: &MultisigAddr) -> [u8; 32] {
+        addr.0
+    }
+
+    pub fn from_pks(version: u8, threshold: u8, pks: &[PublicKey]) -> MsigResult<MultisigAddr> {
+        MultisigAddr::from_pks(version, threshold, pks)
+    }
+
+    pub fn sign(
+        addr: &MultisigAddr,
+        msg: &[u8],
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+        kp: &Keypair,
+    ) -> MsigResult<MultisigSignature> {
+        addr.sign(msg, version, threshold, pks, kp)
+    }
+
+    pub fn assemble(parts: &[MultisigSignature]) -> MsigResult<MultisigSignature> {
+        MultisigSignature::assemble(parts)
+    }
+
+    pub fn add_sigs(to: &mut MultisigSignature, parts: Vec<MultisigSignature>) -> MsigResult<()> {
+        to.add_sigs(parts)
+    }
+
+    pub fn merge(a: &MultisigSignature, b: &MultisigSignature) -> MsigResult<MultisigSignature> {
+        a.merge(b)
+    }
+
+    pub fn batch_verify(
+        sig: &MultisigSignature,
+        msg: &[u8],
+        addr: &MultisigAddr,
+        batch: &mut BatchVerifier,
+    ) -> MsigResult<bool> {
+        sig.batch_verify(msg, addr, batch)
+    }
+}
-- 
2.43.0


From af7932969edac966a21f0574a384660352555b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 05/57] fix: one-time signatures handle the largest identifiers
 without overflow

---
 src/crypto/ots.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crypto/ots.rs b/src/crypto/ots.rs
index ce4002b..3045264 100644
--- a/src/crypto/ots.rs
+++ b/src/crypto/ots.rs
@@ -150,7 +150,7 @@ impl OTSSecrets {
         let _guard = self.lock.read();
 
         // Check if we already have a partial batch of subkeys.
-        if id.batch + 1 == self.first_batch
+        if id.batch.checked_add(1) == Some(self.first_batch)
             && id.offset >= self.first_offset
             && id.offset - self.first_offset < self.offsets.len() as u64
         {
@@ -201,7 +201,9 @@ impl OTSSecrets {
         // This might still trigger a false warning if we're out-of-range by just one
         // and it happens to be a batch boundary, but we don't have the batch
         // size (key dilution) parameter accessible here easily.
-        if self.first_batch == id.batch + 1 && self.first_offset == id.offset + 1 {
+        if id.batch.checked_add(1) == Some(self.first_batch)
+            && id.offset.checked_add(1) == Some(self.first_offset)
+        {
             info!("{}", msg);
         } else {
             warn!("{}", msg);
@@ -224,7 +226,7 @@ impl OTSSecrets {
         let _guard = self.lock.write().unwrap();
 
         // If we are just advancing in the same batch, simply delete some offset subkeys.
-        if current.batch + 1 == self.first_batch {
+        if current.batch.checked_add(1) == Some(self.first_batch) {
             if current.offset > self.first_offset {
                 let mut jump = current.offset - self.first_offset;
                 if jump > self.offsets.len() as u64 {
@@ -239,7 +241,7 @@ impl OTSSecrets {
         }
 
         // If we are trying to forget something earlier, there's nothing to do.
-        if current.batch + 1 < self.first_batch {
+        if current.batch < self.first_batch {
             return;
         }
 
-- 
2.43.0


From 7a513f67f1732cbf23bff050772de624c79428b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 06/57] fix: reject invalid and small-order VRF public keys
 instead of panicking or accepting them

---
 src/crypto/vrf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index aa0477e..c355cc8 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -142,9 +142,10 @@ impl VrfPublicKey {
         }
 
         let (gamma, c, s) = decoded.unwrap();
+        let public_point = self.to_point().ok_or(VrfError::InvalidProof)?;
         let hash_point = hash_to_curve(self, bytes);
 
-        let u = s * constants::ED25519_BASEPOINT_POINT - c * self.to_point();
+        let u = s * constants::ED25519_BASEPOINT_POINT - c * public_point;
         let v = s * hash_point - c * gamma;
         let c_calculated = hash_points(&[hash_point, gamma, u, v]);
 
@@ -156,11 +157,12 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Panics if the public key does not correspond to a valid curve point.
-    fn to_point(&self) -> EdwardsPoint {
+    /// Returns None if the public key does not correspond to a curve point,
+    /// or if it is of small order (no secret is needed to produce a proof for such a key).
+    fn to_point(&self) -> Option<EdwardsPoint> {
         CompressedEdwardsY::from_slice(&self.0)
             .decompress()
-            .unwrap()
+            .filter(|point| !point.is_small_order())
     }
 }
 
-- 
2.43.0


From cec1cc50ce1fc3ca33ae98daae3c03740e5ba385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 07/57] hook: raw VRF proof and key bytes under cfg(verif)

---
 src/crypto/vrf.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index c355cc8..f8b0a3f 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -356,3 +356,21 @@ mod tests {
         HEXLOWER.decode(hex.as_bytes()).unwrap()
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn proof(bytes: [u8; 80]) -> VrfProof {
+        VrfProof(bytes)
+    }
+
+    pub fn public_key(bytes: [u8; 32]) -> VrfPublicKey {
+        VrfPublicKey(bytes)
+    }
+
+    pub fn public_key_bytes(key: &VrfPublicKey) -> [u8; 32] {
+        key.0
+    }
+}
-- 
2.43.0


From 347747abaf3420f4bb23e3fdfdea42afc9333307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 08/57] fix: reject address strings of the wrong length instead
 of panicking

---
 src/data/basics/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 563888c..9f92f1b 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -85,7 +85,7 @@ impl FromStr for Address {
         };
 
         let mut short = Address([0; 32]);
-        if decoded.len() < short.0.len() {
+        if decoded.len() != short.0.len() + CHECKSUM_LEN {
             return Err(AddressError::WrongLength);
         }
 
-- 
2.43.0


From 8468f72da969faf8f912b9af0ea37817978d50d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 09/57] fix: encode structures with field names, so that
 encodings with omitted fields stay decodable and distinct

---
 src/protocol/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index c8cabef..4c21f79 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -4,7 +4,7 @@
 use serde::{Deserialize, Serialize};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
-    rmp_serde::to_vec(x).unwrap()
+    rmp_serde::to_vec_named(x).unwrap()
 }
 
 pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::decode::Error> {
-- 
2.43.0


From bd5de42a0e5ba61266bcbc0c7cff053eaf468186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 10/57] fix: decode addresses from the byte string they are
 encoded as

---
 src/data/basics/address.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 9f92f1b..f7dcb82 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -1,11 +1,12 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fmt;
 use std::str::FromStr;
 
 use data_encoding::BASE32_NOPAD;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use sha2::{Digest, Sha512Trunc256};
 use thiserror::Error;
 
@@ -23,7 +24,7 @@ pub enum AddressError {
     InvalidChecksum,
 }
 
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
+#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
 pub struct Address(pub [u8; 32]);
 
 impl Serialize for Address {
@@ -32,6 +33,18 @@ impl Serialize for Address {
     }
 }
 
+impl<'de> Deserialize<'de> for Address {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let bytes = serde_bytes::ByteBuf::deserialize(deserializer)?;
+        let len = bytes.len();
+        bytes
+            .into_vec()
+            .try_into()
+            .map(Address)
+            .map_err(|_| serde::de::Error::invalid_length(len, &"an address of 32 bytes"))
+    }
+}
+
 impl Address {
     pub fn new(hash: crypto::CryptoHash) -> Self {
         Self(hash.0)
-- 
2.43.0


From 8c301d6259bffe80b0e4abf414c8f99155b1a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 11/57] fix: decode signed transactions that carry no plain
 signature

---
 src/data/transactions/signed_tx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 9186ff9..073cffe 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -16,13 +16,17 @@ fn is_empty(s: &crypto::Signature) -> bool {
     s.to_bytes() == [0; crypto::SIGNATURE_LENGTH]
 }
 
+fn empty_signature() -> crypto::Signature {
+    crypto::Signature::new([0; crypto::SIGNATURE_LENGTH])
+}
+
 /// Wraps a transaction and a signature.
 /// It exposes a `verify()` method that verifies the signature
 /// and checks that the underlying transaction is well-formed.
 // TODO: update this documentation now that there's multisig
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct SignedTx {
-    #[serde(skip_serializing_if = "is_empty")]
+    #[serde(default = "empty_signature", skip_serializing_if = "is_empty")]
     pub sig: crypto::Signature,
     #[serde(default, skip_serializing_if = "is_default")]
     pub msig: Option<crypto::MultisigSignature>,
-- 
2.43.0


From 162ae8da2a9323e1864628b744cba5322ba0f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 12/57] fix: encode maps in key order so that equal objects
 have equal encodings

---
 src/data/basics/teal.rs         |  9 +++++++--
 src/data/basics/user_balance.rs |  8 +++++++-
 src/data/transactions/teal.rs   |  2 ++
 src/protocol/codec.rs           | 12 +++++++++++-
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 542a050..a982ab7 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -9,6 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::config;
 use crate::data::basics::MicroAlgos;
+use crate::protocol;
 
 /// Actions that may be performed when applying a delta to a TEAL key/value store.
 #[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
@@ -45,7 +46,9 @@ impl ValueDelta {
 /// Map from key/value store keys to `ValueDelta`s, indicating what should happen for that key.
 //msgp:allocbound StateDelta config.MaxStateDeltaKeys
 #[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
-pub struct StateDelta(HashMap<String, ValueDelta>);
+pub struct StateDelta(
+    #[serde(serialize_with = "protocol::sorted_map")] HashMap<String, ValueDelta>,
+);
 
 /*
 /// Equal checks whether two StateDeltas are equal. We don't check for nilness
@@ -235,7 +238,9 @@ impl fmt::Display for TealValue {
 /// Represents a key/value store for use in an application's local or global state.
 //msgp:allocbound TealKeyValue EncodedMaxKeyValueEntries
 #[derive(Clone, Serialize, Deserialize)]
-pub struct TealKeyValue(HashMap<String, TealValue>);
+pub struct TealKeyValue(
+    #[serde(serialize_with = "protocol::sorted_map")] HashMap<String, TealValue>,
+);
 
 impl TealKeyValue {
     /// Calculates the number of each value type in a `TealKeyValue` and represents the result as a `StateSchema`.
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 26ae790..c8226e6 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -151,6 +151,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead. AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub asset_params: HashMap<AssetIndex, AssetParams>,
 
     /// Set of assets that can be held by this account.
@@ -168,6 +169,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead.  AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub assets: HashMap<AssetIndex, AssetHolding>,
 
     /// Address against which signatures/multisigs/logicsigs should be checked.
@@ -177,9 +179,11 @@ pub struct AccountData {
     pub auth_addr: Address,
 
     /// Stores the local states associated with any applications that this account has opted in to.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub app_local_states: HashMap<AppIndex, AppLocalState>,
 
     /// Stores the global parameters and state associated with any applications that this account has created.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub app_params: HashMap<AppIndex, AppParams>,
 
     /// Stores the sum of all of the local `StateSchema`s and global `StateSchema`s in this account
@@ -268,7 +272,9 @@ pub type AssetIndex = u64;
 
 /// Unique integer index of an application that can be used to look up the creator of the application,
 /// whose balance record contains the `AppParams`.
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(
+    Clone, Copy, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize,
+)]
 pub struct AppIndex(pub u64);
 
 /// Represents either an `AssetIndex` or `AppIndex`, which come from the same namespace of indices as each other
diff --git a/src/data/transactions/teal.rs b/src/data/transactions/teal.rs
index 3444e8c..7e68136 100644
--- a/src/data/transactions/teal.rs
+++ b/src/data/transactions/teal.rs
@@ -7,6 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use super::SignedTxWithAD;
 use crate::data::basics;
+use crate::protocol;
 
 /// Stores `StateDelta`s for an application's global key/value store, as well as
 /// `StateDelta`s for some number of accounts holding local state for that application
@@ -16,6 +17,7 @@ pub struct EvalDelta {
 
     /// When decoding EvalDeltas, the integer key represents an offset into
     /// `[txn.Sender, txn.Accounts[0], txn.Accounts[1], ...]`.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub local_deltas: HashMap<u64, basics::StateDelta>,
 
     pub logs: Vec<String>,
diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index 4c21f79..6d80ac0 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -1,7 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use serde::{Deserialize, Serialize};
+use std::collections::{BTreeMap, HashMap};
+
+use serde::{Deserialize, Serialize, Serializer};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
     rmp_serde::to_vec_named(x).unwrap()
@@ -11,6 +13,14 @@ pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::d
     rmp_serde::decode::from_slice::<T>(bytes)
 }
 
+/// Serializes a map in ascending order of its keys, so that equal maps have equal encodings.
+pub(crate) fn sorted_map<K: Ord + Serialize, V: Serialize, S: Serializer>(
+    map: &HashMap<K, V>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    map.iter().collect::<BTreeMap<_, _>>().serialize(serializer)
+}
+
 fn is_default<T: Default + PartialEq>(t: &T) -> bool {
     t == &T::default()
 }
-- 
2.43.0


From 6596536d434e21f11e45ac0fe634a2170ea8b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:27 +0000
Subject: [PATCH 13/57] fix: include the upgrade state in encoded and hashed
 block headers

---
 src/data/bookkeeping/block.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 692859d..27f12a1 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -96,7 +96,6 @@ pub struct BlockHeader {
     /// Once a block proposer determines its UpgradeVote, then UpdateState
     /// is updated deterministically based on the previous UpdateState and
     /// the new block's UpgradeVote.
-    #[serde(skip)]
     pub upgrade_state: UpgradeState,
     pub upgrade_vote: UpgradeVote,
 
@@ -155,7 +154,7 @@ pub struct UpgradeVote {
 /// strictly speaking, computable from the history of all UpgradeVotes
 /// but we keep it in the block for explicitness and convenience
 /// (instead of materializing it separately, like balances).
-#[derive(Clone, Default, PartialEq, Eq)]
+#[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
 pub struct UpgradeState {
     pub current_protocol: protocol::ConsensusVersion,
     pub next_protocol: Option<protocol::ConsensusVersion>,
-- 
2.43.0


From 4d49a412a5cdf7ac555d1dc081eafc13d2a36fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 14/57] fix: report unusable blocks as errors when computing
 payset commitments or decoding transactions

---
 src/crypto/merklearray/merkle.rs |  6 +++---
 src/data/bookkeeping/block.rs    | 23 +++++++++++++++++------
 src/data/bookkeeping/errors.rs   |  3 +++
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/crypto/merklearray/merkle.rs b/src/crypto/merklearray/merkle.rs
index ca72f2c..5bc536f 100644
--- a/src/crypto/merklearray/merkle.rs
+++ b/src/crypto/merklearray/merkle.rs
@@ -42,7 +42,7 @@ impl Tree {
             .0
             .par_iter()
             .map(|stib| {
-                let stad = block.header.decode_signed_tx(stib).unwrap();
+                let stad = block.header.decode_signed_tx(stib).map_err(|_| ())?;
                 let txid = stad.tx.tx.id();
                 let stib = hash_obj(stib);
 
@@ -50,9 +50,9 @@ impl Tree {
                 buf[..HASH_LEN].copy_from_slice(&txid.0 .0);
                 buf[HASH_LEN..].copy_from_slice(&stib.0);
 
-                hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat())
+                Ok(hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat()))
             })
-            .collect();
+            .collect::<Result<_, ()>>()?;
 
         let mut tree = Self {
             levels: vec![Layer(leaves)],
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 27f12a1..001923b 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -275,14 +275,15 @@ impl Block {
     /// Computes the commitment to the payset,
     /// using the appropriate commitment plan based on the block's protocol.
     pub fn payset_commit(&self) -> Result<CryptoHash, ()> {
-        let params = &config::CONSENSUS.0[&self.header.upgrade_state.current_protocol];
+        let params = config::CONSENSUS
+            .0
+            .get(&self.header.upgrade_state.current_protocol)
+            .ok_or(())?;
 
         match params.payset_commit {
             config::PaysetCommitType::Flat => Ok(self.payset.commit_flat()),
             config::PaysetCommitType::Merkle => Ok(self.tx_merkle_tree()?.root()),
-            config::PaysetCommitType::Unsupported => {
-                panic!("encountered unsuppported payset commit type")
-            }
+            config::PaysetCommitType::Unsupported => Err(()),
         }
     }
 
@@ -455,7 +456,7 @@ impl BlockHeader {
     ) -> Result<transactions::SignedTxWithAD, InvalidBlock> {
         let mut stad = stb.tx.clone();
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = supported_protocol(self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             return Ok(stad);
         }
@@ -493,7 +494,7 @@ impl BlockHeader {
         let mut has_genesis_id = false;
         let mut has_genesis_hash = false;
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = supported_protocol(self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             let stad = transactions::SignedTxWithAD { tx: st, ad };
             return Ok(transactions::SignedTxInBlock {
@@ -700,6 +701,16 @@ impl UpgradeState {
     }
 }
 
+/// Looks up the parameters of a consensus protocol, which may be one that is not supported.
+fn supported_protocol(
+    version: protocol::ConsensusVersion,
+) -> Result<&'static config::ConsensusParams, InvalidBlock> {
+    config::CONSENSUS
+        .0
+        .get(&version)
+        .ok_or(InvalidBlock::UnsupportedProtocol(version))
+}
+
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
 // TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 7fc2aef..64826c0 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -5,6 +5,7 @@ use thiserror::Error;
 
 use crate::crypto::CryptoHash;
 use crate::data::basics;
+use crate::protocol;
 
 #[derive(Debug, PartialEq, Eq, Error)]
 pub enum InvalidBlock {
@@ -22,6 +23,8 @@ pub enum InvalidBlock {
     WrongBranch(CryptoHash, CryptoHash),
     #[error("invalid upgrade state")]
     WrongUpgradeState,
+    #[error("consensus protocol {0} is not supported")]
+    UnsupportedProtocol(protocol::ConsensusVersion),
     #[error("bad timestamp: current {0} < previous {1}")]
     BadEarlyTimestamp(u64, u64),
     #[error("bad timestamp: current {0} > previous {1} + max increment {2}")]
-- 
2.43.0


From dd2c6d76be2b078a8c30dcac28ee8f97a1a49c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 15/57] fix: block succession check reports unsupported
 protocols and survives extreme rounds and timestamps

---
 src/data/bookkeeping/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 001923b..a1d7399 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -355,11 +355,11 @@ impl BlockHeader {
     // TODO document possible errors
     pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
-        let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let params = supported_protocol(self.upgrade_state.current_protocol)?;
 
         // check round
-        let round = basics::Round(prev.round.0 + 1);
-        if round != self.round {
+        let round = basics::Round(prev.round.0.saturating_add(1));
+        if round != self.round || round == prev.round {
             return Err(InvalidBlock::WrongRound(round, self.round));
         }
 
@@ -389,7 +389,7 @@ impl BlockHeader {
                     self.timestamp,
                     prev.timestamp,
                 ));
-            } else if self.timestamp > prev.timestamp + params.max_timestamp_increment {
+            } else if self.timestamp - prev.timestamp > params.max_timestamp_increment {
                 return Err(InvalidBlock::BadLateTimestamp(
                     self.timestamp,
                     prev.timestamp,
-- 
2.43.0


From 56f449453cb3d88f26ae46eccdbdf16fdae78266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 16/57] fix: apply upgrade votes to the proposal state they
 refer to, without changing the previous header

---
 src/data/bookkeeping/block.rs | 80 ++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index a1d7399..31d49e3 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -231,7 +231,7 @@ impl Block {
 
     /// Constructs a new valid block with an empty payset and an unset seed.
     // TODO document panics or work around unwraps
-    pub fn new(prev: &mut BlockHeader) -> Block {
+    pub fn new(prev: &BlockHeader) -> Block {
         let (upgrade_vote, upgrade_state) = process_upgrade_params(prev).unwrap();
 
         let params = &config::CONSENSUS.0[&upgrade_state.current_protocol];
@@ -353,7 +353,7 @@ impl BlockHeader {
     ///
     /// # Errors
     // TODO document possible errors
-    pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
+    pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
         let params = supported_protocol(self.upgrade_state.current_protocol)?;
 
@@ -621,16 +621,17 @@ impl UpgradeState {
     /// that is, if UpgradePropose shows up when there is already an active proposal,
     /// or if UpgradeApprove shows up if there is no active proposal being voted on.
     fn apply_upgrade_vote(
-        &mut self,
+        &self,
         round: basics::Round,
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
-        let params = &config::CONSENSUS.0[&self.current_protocol];
+        let params = supported_protocol(self.current_protocol)?;
+        let mut next = self.clone();
 
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
-            if self.next_protocol != Some(self.current_protocol) {
+            if self.next_protocol.is_some() {
                 return Err(InvalidBlock::CompetingProposal);
             }
 
@@ -653,51 +654,57 @@ impl UpgradeState {
                 upgrade_delay = params.default_upgrade_wait_rounds;
             }
 
-            self.next_protocol = Some(vote.upgrade_propose);
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
-            self.next_protocol_switch_on =
-                basics::Round(round.0 + params.upgrade_vote_rounds + upgrade_delay);
+            next.next_protocol = Some(vote.upgrade_propose);
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before =
+                basics::Round(round.0.saturating_add(params.upgrade_vote_rounds));
+            next.next_protocol_switch_on = basics::Round(
+                next.next_protocol_vote_before
+                    .0
+                    .saturating_add(upgrade_delay),
+            );
         } else if vote.upgrade_delay != basics::Round(0) {
             return Err(InvalidBlock::NonZeroDelayWithoutProposal);
         }
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if self.next_protocol == Some(self.current_protocol) {
+            if next.next_protocol.is_none() {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
-            if round >= self.next_protocol_vote_before {
+            if round >= next.next_protocol_vote_before {
                 return Err(InvalidBlock::ApprovalAfterDeadline(
                     round,
-                    self.next_protocol_vote_before,
+                    next.next_protocol_vote_before,
                 ));
             }
 
-            self.next_protocol_approvals += 1;
+            next.next_protocol_approvals += 1;
         }
 
         // Clear out failed proposal
-        if round == self.next_protocol_vote_before
-            && self.next_protocol_approvals < params.upgrade_threshold
+        if round == next.next_protocol_vote_before
+            && next.next_protocol_approvals < params.upgrade_threshold
         {
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+            next.next_protocol = None;
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before = basics::Round(0);
+            next.next_protocol_switch_on = basics::Round(0);
         }
 
         // Switch over to new approved protocol
-        if round == self.next_protocol_switch_on {
-            self.current_protocol = self.next_protocol.unwrap();
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+        if round == next.next_protocol_switch_on {
+            if let Some(approved) = next.next_protocol {
+                next.current_protocol = approved;
+            }
+            next.next_protocol = None;
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before = basics::Round(0);
+            next.next_protocol_switch_on = basics::Round(0);
         }
 
-        Ok(self.clone())
+        Ok(next)
     }
 }
 
@@ -712,15 +719,18 @@ fn supported_protocol(
 }
 
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
-// TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
-    prev: &mut BlockHeader,
+    prev: &BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
-    // Find parameters for current protocol; panic if not supported
-    let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
+    // Find parameters for current protocol
+    let prev_params = supported_protocol(prev.upgrade_state.current_protocol)?;
 
     // Decide on the votes for protocol upgrades
-    let mut upgrade_vote = UpgradeVote::default();
+    // (proposing the current protocol means not proposing any upgrade)
+    let mut upgrade_vote = UpgradeVote {
+        upgrade_propose: prev.upgrade_state.current_protocol,
+        ..UpgradeVote::default()
+    };
 
     // If there is no upgrade proposal, see if we can make one
     if prev.upgrade_state.next_protocol.is_none() {
@@ -734,9 +744,9 @@ pub fn process_upgrade_params(
     // If there is a proposal being voted on, see if we approve it
     let round = prev.round + basics::Round(1);
     if round < prev.upgrade_state.next_protocol_vote_before {
-        upgrade_vote.upgrade_approve = prev_params
-            .approved_upgrades
-            .contains_key(&prev.upgrade_state.next_protocol.unwrap());
+        upgrade_vote.upgrade_approve = prev.upgrade_state.next_protocol.map_or(false, |next| {
+            prev_params.approved_upgrades.contains_key(&next)
+        });
     }
 
     let upgrade_state = prev
-- 
2.43.0


From 6719e9643d66bd8fe627bbc5d198a6dc0d346bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 17/57] fix: report whether the next protocol version is
 supported

---
 src/data/bookkeeping/block.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 31d49e3..9906646 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -431,20 +431,21 @@ impl BlockHeader {
     /// If no upgrade is scheduled, return the current protocol.
     pub fn next_version_info(&self) -> (Option<protocol::ConsensusVersion>, basics::Round, bool) {
         // TODO handle supported check with enum (maybe introduce `Unsupported` enum variant
-        //_, supported = config.Consensus[ver]
-        if self.round >= self.upgrade_state.next_protocol_vote_before
-            && self.round < self.upgrade_state.next_protocol_switch_on
+        let supported = |version| config::CONSENSUS.0.contains_key(version);
+        let state = &self.upgrade_state;
+        if self.round >= state.next_protocol_vote_before
+            && self.round < state.next_protocol_switch_on
         {
             (
-                self.upgrade_state.next_protocol,
-                self.upgrade_state.next_protocol_switch_on,
-                true,
+                state.next_protocol,
+                state.next_protocol_switch_on,
+                state.next_protocol.as_ref().map_or(false, supported),
             )
         } else {
             (
-                Some(self.upgrade_state.current_protocol),
+                Some(state.current_protocol),
                 basics::Round(self.round.0 + 1),
-                true,
+                supported(&state.current_protocol),
             )
         }
     }
-- 
2.43.0


From 156fb21c3b8bd2320bd73136bbc1871fa0452743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 18/57] fix: compute the rewards rate from what the pool can
 spend above its reserve

---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 9906646..272218e 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -568,7 +568,7 @@ impl RewardsState {
             }
 
             // it is time to refresh the rewards rate
-            let new_rate = match incentive_pool_balance.0.checked_add(max_spent_over) {
+            let new_rate = match incentive_pool_balance.0.checked_sub(max_spent_over) {
                 Some(n) => n,
                 None => {
                     error!(
-- 
2.43.0


From 6ffb8c823df0ea566458794d47c75b63a137e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 19/57] fix: compute normalized online balances without
 overflowing

---
 src/data/basics/user_balance.rs | 35 ++++-----------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index c8226e6..1261837 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -503,42 +503,15 @@ impl AccountData {
 
         // If this account had one RewardUnit of microAlgos in round 0,
         // it would have per_reward_unit microAlgos at the account's current rewards level.
-        let per_reward_unit = self.rewards_base + proto.reward_unit;
+        let per_reward_unit = self.rewards_base as u128 + proto.reward_unit as u128;
 
         // To normalize, we compute, mathematically,
         // `u.MicroAlgos / perRewardUnit * proto.RewardUnit`, as
         // `(u.MicroAlgos * proto.RewardUnit) / perRewardUnit`.
-        //norm, overflowed = Muldiv(self.micro_algos.to_u64(), proto.reward_unit, per_reward_unit)?
-        let norm = self.micro_algos.to_u64().checked_mul(proto.reward_unit);
-
-        // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-        // as long as `self.reward_base` isn't huge enough to cause overflow.
-        if norm.is_none() {
-            // TODO use logger
-            panic!(
-                "overflow computing normalized balance {} * {} / ({} + {})",
-                self.micro_algos.to_u64(),
-                proto.reward_unit,
-                self.rewards_base,
-                proto.reward_unit
-            );
-        }
+        let norm = self.micro_algos.to_u64() as u128 * proto.reward_unit as u128 / per_reward_unit;
 
-        match norm.unwrap().checked_div(per_reward_unit) {
-            // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-            // as long as `self.reward_base` isn't huge enough to cause overflow.
-            None => {
-                // TODO use logger
-                panic!(
-                    "overflow computing normalized balance {} * {} / ({} + {})",
-                    self.micro_algos.to_u64(),
-                    proto.reward_unit,
-                    self.rewards_base,
-                    proto.reward_unit
-                );
-            }
-            Some(n) => n,
-        }
+        // This never exceeds the balance, because `per_reward_unit >= proto.reward_unit`.
+        norm as u64
     }
 }
 
-- 
2.43.0


From f92dda1a9cf18ebb8e131dd0e91b624c030b9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 20/57] fix: hash the content of balance records

---
 src/data/basics/user_balance.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 1261837..5fae968 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -524,9 +524,7 @@ struct BalanceRecord {
 
 impl Hashable for BalanceRecord {
     fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
-        // TODO implement protocol::codec
-        //(protocol::BALANCE_RECORD, protocol::encode(&self))
-        (protocol::BALANCE_RECORD, Vec::new())
+        (protocol::BALANCE_RECORD, protocol::encode(&self))
     }
 }
 
-- 
2.43.0


From d1e5e697d4dea5931dfbce2bacc86bb6e0139973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 21/57] fix: accept transactions that pay exactly the minimum
 fee

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index abdcaea..ecec9fb 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -448,7 +448,7 @@ impl Transaction {
         }
         */
 
-        if !proto.enable_fee_pooling && self.header.fee <= basics::MicroAlgos(proto.min_tx_fee) {
+        if !proto.enable_fee_pooling && self.header.fee < basics::MicroAlgos(proto.min_tx_fee) {
             if let TxFields::CompactCert(_) = &self.fields {
                 // Zero fee allowed for compact cert txn.
             } else {
-- 
2.43.0


From db89742b54eb5e840d8bce967eec96de41923081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 22/57] fix: refuse transactions from the rewards pool instead
 of panicking

---
 src/data/transactions/errors.rs      | 2 ++
 src/data/transactions/transaction.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index e7c4234..8844222 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -44,6 +44,8 @@ pub enum InvalidTx {
     FeeLessThanMin(basics::MicroAlgos, basics::MicroAlgos),
     #[error("transaction sender not set (set to zero)")]
     ZeroSender,
+    #[error("transaction from incentive pool is invalid")]
+    SenderIsRewardsPool,
 
     #[error("bad validty range of {0}-{1}")]
     BadValidityRange(basics::Round, basics::Round),
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index ecec9fb..e9f6eb8 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -501,8 +501,8 @@ impl Transaction {
         }
 
         if self.header.sender == spec.rewards_pool {
-            // this check is just to be safe, but reaching here seems impossible, since it requires computing a preimage of rwpool
-            unreachable!("transaction from incentive pool");
+            // this check is just to be safe, since authorizing such a transaction requires computing a preimage of rwpool
+            Err(InvalidTx::SenderIsRewardsPool)
         } else if self.header.sender.is_zero() {
             Err(InvalidTx::ZeroSender)
         } else if !proto.support_transaction_leases && (self.header.lease != [0; 32]) {
-- 
2.43.0


From a499f220e79d63a0043bf51823339f65dfeae867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 23/57] fix: key registration check survives the largest last
 valid round

---
 src/data/transactions/keyreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/keyreg.rs b/src/data/transactions/keyreg.rs
index ec6c419..149d7a2 100644
--- a/src/data/transactions/keyreg.rs
+++ b/src/data/transactions/keyreg.rs
@@ -45,7 +45,7 @@ impl KeyregFields {
             // going online
             if self.vote_last == basics::Round(0) {
                 return Err(InvalidTx::KeyregGoingOnlineWithZeroVoteLast);
-            } else if self.vote_first.0 > header.last_valid.0 + 1 {
+            } else if self.vote_first.0 > header.last_valid.0.saturating_add(1) {
                 return Err(InvalidTx::KeyregGoingOnlineWithFirstVoteAfterLastValid);
             }
         }
-- 
2.43.0


From 97d721170ab1988a6b28754a724d97f2a2bc656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 24/57] fix: require the minimum fee for every transaction but
 compact certs

---
 src/data/transactions/signed_tx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 073cffe..b78c60c 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -113,8 +113,10 @@ pub fn fee_credit(tx_group: &[SignedTx], min_fee: u64) -> Result<u64, ()> {
     let mut min_fee_count = 0;
     let mut fees_paid = 0_u64;
     for stxn in tx_group {
-        if let TxFields::CompactCert(_) = stxn.tx.fields {
-            min_fee_count += 1;
+        match stxn.tx.fields {
+            // compact certs are free
+            TxFields::CompactCert(_) => {}
+            _ => min_fee_count += 1,
         }
         fees_paid = fees_paid.saturating_add(stxn.tx.header.fee.0);
     }
-- 
2.43.0


From d4fc5990a77bfb9c597ae7da38c1aaec24c3ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 25/57] fix: report the limit that the total program length
 exceeds

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index e9f6eb8..89300d2 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -371,7 +371,7 @@ impl Transaction {
                 } else if ap_len + cs_len > (pages * proto.max_app_total_program_len) as usize {
                     return Err(InvalidTx::AppProgramsTooLong(
                         ap_len + cs_len,
-                        pages * proto.max_app_program_len,
+                        pages * proto.max_app_total_program_len,
                     ));
                 } else if fields.local_state_schema.num_entries() > proto.max_local_schema_entries {
                     return Err(InvalidTx::LocalStateSchemaTooLarge(
-- 
2.43.0


From f14ebe368b8efc9addc018c906de253dde54142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 26/57] fix: a credential's lowest output covers one hash for
 each unit of weight

---
 src/data/committee/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index fe2db50..7a0f178 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -170,7 +170,7 @@ impl Credential {
         // significant disadvantage because UnauthenticatedCredential.Verify
         // wants the hash to be large but tiebreaking between proposals wants
         // the hash to be small.
-        for i in 1..self.weight {
+        for i in 1..=self.weight {
             let h: crypto::CryptoHash;
             if self.domain_separation_enabled {
                 self.hashable.as_mut().unwrap().iter = i;
-- 
2.43.0


From 635f89749f8f345d4191936816e446bf011656b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 27/57] fix: hash the VRF output when deriving a credential's
 weight and order

---
 src/crypto/vrf.rs                | 20 +++++++++++++++++++-
 src/data/committee/credential.rs |  1 -
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index f8b0a3f..14d5a9c 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -15,7 +15,7 @@ use curve25519_dalek::{
 use data_encoding::BASE64;
 use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
 use generic_array::GenericArray;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use sha2::{Digest, Sha512};
 use thiserror::Error;
 
@@ -204,6 +204,24 @@ impl Default for VrfOutput {
     }
 }
 
+impl Serialize for VrfOutput {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_bytes(&self.0)
+    }
+}
+
+impl<'de> Deserialize<'de> for VrfOutput {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let bytes = serde_bytes::ByteBuf::deserialize(deserializer)?;
+        let len = bytes.len();
+        bytes
+            .into_vec()
+            .try_into()
+            .map(VrfOutput)
+            .map_err(|_| serde::de::Error::invalid_length(len, &"a VRF output of 64 bytes"))
+    }
+}
+
 /// Dumb digest which just truncates everything after 512 bits.
 /// It's meant to be used as a no-op: 512 bits in, same 512 bits out.
 /// Needed only for the dirty hack below.
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 7a0f178..c88cb66 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -49,7 +49,6 @@ pub struct Credential {
 #[derive(Serialize, Deserialize)]
 struct HashableCredential {
     //_struct struct{}         `codec:",omitempty,omitemptyarray"`
-    #[serde(skip)]
     raw_out: crypto::VrfOutput,
     member: basics::Address,
     iter: u64,
-- 
2.43.0


From f5d4073cbaee1addf4933b2bee5934601ca7bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 28/57] fix: derive root keys from their seed instead of
 panicking

---
 src/data/account.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 5d145b2..fd3b6be 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -74,7 +74,10 @@ impl Root {
 
     /// Instantiate a key based on the given seed.
     fn import(seed: [u8; 32]) -> Result<Root, Error> {
-        let kp = crypto::Keypair::from_bytes(&seed).unwrap();
+        let secret =
+            ed25519_dalek::SecretKey::from_bytes(&seed).expect("seed has the length of a key");
+        let public = (&secret).into();
+        let kp = crypto::Keypair { secret, public };
         let raw = protocol::encode(&kp);
 
         KEY_STORE.insert("root", raw)?;
-- 
2.43.0


From 5aa8b1be534862a43c830d50be750250fedd5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 29/57] fix: report missing or malformed participation keys
 when restoring

---
 src/data/account.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index fd3b6be..e4571ce 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -55,6 +55,8 @@ pub struct Participation {
 pub enum Error {
     #[error("did not find a matching object in storage")]
     NotFound,
+    #[error("an object in storage has the wrong size")]
+    Malformed,
     #[error("invalid round interval ({0}-{1})")]
     InvalidRoundInterval(basics::Round, basics::Round),
     #[error("failed to access account storage")]
@@ -63,6 +65,12 @@ pub enum Error {
     DecodeError(#[from] rmp_serde::decode::Error),
 }
 
+/// Converts a stored value of fixed size, if it is present.
+fn stored_array<const N: usize>(raw: Option<sled::IVec>) -> Result<[u8; N], Error> {
+    let raw = raw.ok_or(Error::NotFound)?;
+    raw.as_ref().try_into().map_err(|_| Error::Malformed)
+}
+
 impl Root {
     /// Generate new account from system's source of randomness.
     pub fn generate() -> Result<Root, Error> {
@@ -186,13 +194,12 @@ impl Participation {
         let raw_last_valid = KEY_STORE.get("part-last_valid")?;
         let raw_key_dilution = KEY_STORE.get("part-key_dilution")?;
 
-        let parent = raw_parent.unwrap().as_ref().try_into().unwrap();
-        let vrf = protocol::decode(&raw_vrf.unwrap())?;
-        let voting = protocol::decode(&raw_voting.unwrap())?;
-        let first_valid = u64::from_be_bytes(raw_first_valid.unwrap().as_ref().try_into().unwrap());
-        let last_valid = u64::from_be_bytes(raw_last_valid.unwrap().as_ref().try_into().unwrap());
-        let key_dilution =
-            u64::from_be_bytes(raw_key_dilution.unwrap().as_ref().try_into().unwrap());
+        let parent = stored_array(raw_parent)?;
+        let vrf = protocol::decode(&raw_vrf.ok_or(Error::NotFound)?)?;
+        let voting = protocol::decode(&raw_voting.ok_or(Error::NotFound)?)?;
+        let first_valid = u64::from_be_bytes(stored_array(raw_first_valid)?);
+        let last_valid = u64::from_be_bytes(stored_array(raw_last_valid)?);
+        let key_dilution = u64::from_be_bytes(stored_array(raw_key_dilution)?);
 
         Ok(Self {
             parent: basics::Address(parent),
-- 
2.43.0


From d7a4a1843357ee9a6bfc6e038c682fe52a1c69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 30/57] fix: store the parts of a participation atomically

---
 src/data/account.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index e4571ce..f2db94d 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -273,8 +273,7 @@ impl Participation {
             key_dilution,
         };
         // Persist the Participation into the database
-        // TODO pass Error up
-        part.persist().unwrap();
+        part.persist()?;
         Ok(part)
     }
 
@@ -284,12 +283,14 @@ impl Participation {
         let voting = self.voting.snapshot();
         let voting_enc = protocol::encode(&voting);
 
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.insert("part-vrf", vrf_enc)?;
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..])?;
+        let mut batch = sled::Batch::default();
+        batch.insert("part-parent", &self.parent.0[..]);
+        batch.insert("part-vrf", vrf_enc);
+        batch.insert("part-voting", voting_enc);
+        batch.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..]);
+        batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
+        batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
+        KEY_STORE.apply_batch(batch)?;
         KEY_STORE.flush()?;
 
         Ok(())
-- 
2.43.0


From 4ca395107f3b0947877018908efce132b58000e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 31/57] fix: delete old keys also for blocks and accounts
 without compact certs

---
 src/data/account_manager.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 2bcdbe2..cda2356 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -110,20 +110,21 @@ impl AccountManager {
             // We need a key for round r+1 for agreement.
             let mut next_round = latest_header.round + basics::Round(1);
 
-            if latest_header.compact_certs[&protocol::CompactCertType::Basic].compactcert_next_round
-                > basics::Round(0)
-            {
+            let cc_next_round = latest_header
+                .compact_certs
+                .get(&protocol::CompactCertType::Basic)
+                .map_or(basics::Round(0), |cc| cc.compactcert_next_round);
+            if cc_next_round > basics::Round(0) {
                 // We need a key for the next compact cert round.
                 // This would be CompactCertNextRound+1 (+1 because compact
                 // cert code uses the next round's ephemeral key), except
                 // if we already used that key to produce a signature (as
                 // reported in ccSigs).
-                let mut next_cc = latest_header.compact_certs[&protocol::CompactCertType::Basic]
-                    .compactcert_next_round
-                    + basics::Round(1);
-                if cc_sigs.get(&part.parent).unwrap() >= &next_cc {
-                    next_cc = *cc_sigs.get(&part.parent).unwrap()
-                        + basics::Round(latest_proto.compact_cert_rounds + 1);
+                let mut next_cc = cc_next_round + basics::Round(1);
+                if let Some(&signed) = cc_sigs.get(&part.parent) {
+                    if signed >= next_cc {
+                        next_cc = signed + basics::Round(latest_proto.compact_cert_rounds + 1);
+                    }
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From ad9721f9be4a5b1db8e2c6e31d85b871f5760d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 32/57] fix: deleting old keys leaves another participation's
 stored keys alone

---
 src/data/account.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/account.rs b/src/data/account.rs
index f2db94d..e0de034 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -224,6 +224,16 @@ impl Participation {
 
         self.voting
             .delete_before(current.ots_id(key_dilution), key_dilution);
+
+        // The storage holds a single participation; it may be a different one.
+        let stored = match KEY_STORE.get("part-voting")? {
+            Some(raw) => protocol::decode::<crypto::OTSSecrets>(&raw)?.verifier,
+            None => return Ok(()),
+        };
+        if stored != self.voting.verifier {
+            return Ok(());
+        }
+
         let voting = self.voting.snapshot();
         let voting_enc = protocol::encode(&voting);
         KEY_STORE.insert("part-voting", voting_enc)?;
-- 
2.43.0


From 05c3ed0bf38e11fa5b2ebcffdc0083116beb96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 33/57] fix: recognise root key files and strip exactly one key
 file suffix

---
 src/config/keyfile.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index ca2a63e..cddb983 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -33,7 +33,7 @@ pub fn matches_part_key_filename(account: &str, filename: &str) -> bool {
 
 /// Returns true iff the given filename is a valid root key filename.
 pub fn is_root_key_filename(filename: &str) -> bool {
-    let n = account_name_from_part_key_filename(filename);
+    let n = account_name_from_root_key_filename(filename);
     matches_root_key_filename(&n, filename)
 }
 
@@ -47,7 +47,10 @@ pub fn is_part_key_filename(filename: &str) -> bool {
 ///
 /// If filename is not a valid root key filename, this returns the filename unchanged.
 pub fn account_name_from_root_key_filename(filename: &str) -> String {
-    filename.trim_end_matches(".rootkey").to_owned()
+    filename
+        .strip_suffix(".rootkey")
+        .unwrap_or(filename)
+        .to_owned()
 }
 
 /// Returns the account name given a participation key filename.
@@ -56,7 +59,10 @@ pub fn account_name_from_root_key_filename(filename: &str) -> String {
 pub fn account_name_from_part_key_filename(filename: &str) -> String {
     if let Some((first, last)) = extract_part_valid_interval(filename) {
         let suffix = format!(".{}.{}.partkey", first.0, last.0);
-        filename.trim_end_matches(&suffix).to_owned()
+        filename
+            .strip_suffix(&suffix)
+            .unwrap_or(filename)
+            .to_owned()
     } else {
         filename.to_owned()
     }
-- 
2.43.0


From 85805fead734ee04e98918396c7c0cdc676a1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 34/57] fix: load the entries of the phonebook

---
 src/config/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09e2001..ace9fbc 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -629,18 +629,15 @@ struct PhonebookBlackWhiteList {
 /// Returns a phonebook loaded from the provided directory, if it exists.
 // NOTE: We no longer use phonebook for anything but tests, but users should be able to use it
 pub fn load_phonebook(datadir: &str) -> io::Result<Vec<String>> {
-    let entries = Vec::new();
     let path = Path::new(datadir).join(PHONEBOOK_FILENAME);
     let content = fs::read_to_string(path)?;
     //if os.IsNotExist(rootErr) {
     //	//don't return error
     //} else {
-    //phonebook := PhonebookBlackWhiteList{}
-    serde_json::from_str(&content)?;
-    //entries = phonebook.include
+    let phonebook: PhonebookBlackWhiteList = serde_json::from_str(&content)?;
 
     // get an initial list of peers
-    Ok(entries)
+    Ok(phonebook.include)
 }
 
 /// Writes the phonebook into a root/PhonebookFilename file.
-- 
2.43.0


From b224f93cb4ce38598ebf5023246211e78f142d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 35/57] fix: saving an empty configurable consensus removes the
 file, if there is one

---
 src/config/consensus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 08e3ba0..ebbc70c 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -496,7 +496,10 @@ pub fn save_configurable_consensus(data_dir: &str, params: ConsensusProtocols) -
     if params.is_empty() {
         // We have no consensus params to write.
         // In this case, delete the existing file (if any).
-        std::fs::remove_file(&consensus_protocol_path)?;
+        return match std::fs::remove_file(&consensus_protocol_path) {
+            Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e.into()),
+            _ => Ok(()),
+        };
     }
     let f = std::fs::OpenOptions::new()
         .write(true)
-- 
2.43.0


From 591ea111f73d218492d5d239f00218bbe1c45858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 36/57] fix: merging consensus protocols deletes related
 versions without panicking

---
 src/config/consensus.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index ebbc70c..dedd90c 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -524,30 +524,27 @@ impl ConsensusProtocols {
     /// Merges a configurable consensus ontop of the existing consensus protocol.
     pub fn merge(&mut self, configurable_consensus: Self) -> Self {
         let mut static_consensus = self.clone();
+        let mut deleted = Vec::new();
 
         for (version, params) in configurable_consensus.0 {
             if params.approved_upgrades.is_empty() {
                 // if we were provided with an empty ConsensusParams,
                 // delete the existing reference to this consensus version
-                for (ver, par) in &self.0 {
-                    if *ver == version {
-                        static_consensus.0.remove(ver);
-                    } else if par.approved_upgrades.contains_key(&version) {
-                        // delete upgrade to deleted version
-                        static_consensus
-                            .0
-                            .get_mut(ver)
-                            .unwrap()
-                            .approved_upgrades
-                            .remove(&version);
-                    }
-                }
+                static_consensus.0.remove(&version);
+                deleted.push(version);
             } else {
                 // need to add/update entry
                 static_consensus.0.insert(version, params);
             }
         }
 
+        // delete upgrades to deleted versions
+        for params in static_consensus.0.values_mut() {
+            for version in &deleted {
+                params.approved_upgrades.remove(version);
+            }
+        }
+
         static_consensus
     }
 }
-- 
2.43.0


From 69a9f013595403f440f32e32fe789a969f7bc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 37/57] fix: report undefined variables in configuration paths
 instead of panicking

---
 src/config/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index ace9fbc..9cdaa96 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -555,10 +555,7 @@ impl Local {
 
     /// Writes the Local settings into a root/ConfigFilename file.
     pub fn save_to_disk(&self, root: &str) -> io::Result<()> {
-        let configpath = Path::new(root).join(CONFIG_FILENAME);
-        let configpath_str = configpath.into_os_string().into_string().unwrap();
-        let expanded_path = shellexpand::env(&configpath_str);
-        self.save_to_file(&expanded_path.unwrap())
+        self.save_to_file(&expand_path(root, CONFIG_FILENAME)?)
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
@@ -642,16 +639,14 @@ pub fn load_phonebook(datadir: &str) -> io::Result<Vec<String>> {
 
 /// Writes the phonebook into a root/PhonebookFilename file.
 pub fn save_phonebook_to_disk(entries: Vec<String>, root: &str) -> Result<()> {
-    let configpath = Path::new(root).join(PHONEBOOK_FILENAME);
-    let configpath_str = configpath.into_os_string().into_string().unwrap();
-    let expanded_path = shellexpand::env(&configpath_str);
+    let path = expand_path(root, PHONEBOOK_FILENAME)?;
     let mut f = fs::OpenOptions::new()
         .write(true)
         .read(false)
         .create(true)
         .truncate(true)
         .mode(0o600)
-        .open(&*expanded_path.unwrap())?;
+        .open(path)?;
     save_phonebook(entries, &mut f)?;
     Ok(())
 }
@@ -662,6 +657,15 @@ fn save_phonebook(entries: Vec<String>, w: &mut impl io::Write) -> Result<()> {
     Ok(serde_json::to_writer_pretty(w, &pb)?)
 }
 
+/// Gives the path of the named file in the given directory, with environment variables expanded.
+fn expand_path(root: &str, filename: &str) -> io::Result<String> {
+    let path = Path::new(root).join(filename);
+    match shellexpand::env(&path.to_string_lossy()) {
+        Ok(path) => Ok(path.into_owned()),
+        Err(e) => Err(io::Error::new(io::ErrorKind::NotFound, e)),
+    }
+}
+
 lazy_static! {
     static ref GLOBAL_CONFIG_FILE_ROOT: RwLock<PathBuf> = RwLock::new(Path::new("").to_path_buf());
 }
-- 
2.43.0


From 509b3966cc830929c6ca4f751a36377157bae76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 38/57] fix: use an existing global configuration directory,
 and swap it in one step

---
 src/config/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 9cdaa96..73d62f8 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -681,9 +681,10 @@ pub fn get_config_file_path(file: &str) -> Result<PathBuf> {
 pub fn get_global_config_file_root() -> io::Result<PathBuf> {
     let mut gcfr = GLOBAL_CONFIG_FILE_ROOT.write().unwrap();
     if gcfr.as_os_str().is_empty() {
-        *gcfr = get_default_config_file_path()?;
+        let default_root = get_default_config_file_path()?;
         // TODO use permissions 0o777
-        fs::create_dir(gcfr.clone())?;
+        fs::create_dir_all(&default_root)?;
+        *gcfr = default_root;
     }
     Ok(gcfr.clone())
 }
@@ -692,9 +693,8 @@ pub fn get_global_config_file_root() -> io::Result<PathBuf> {
 /// It returns the current one so it can be restored, if desired.
 /// This will likely only change for tests.
 pub fn set_global_config_file_root(root_path: &impl AsRef<PathBuf>) -> PathBuf {
-    let current_root = GLOBAL_CONFIG_FILE_ROOT.read().unwrap().clone();
-    *GLOBAL_CONFIG_FILE_ROOT.write().unwrap() = root_path.as_ref().clone();
-    current_root
+    let mut gcfr = GLOBAL_CONFIG_FILE_ROOT.write().unwrap();
+    std::mem::replace(&mut *gcfr, root_path.as_ref().clone())
 }
 
 /// Retrieves the default directory for global (not per-instance) config files.
-- 
2.43.0


From 788974553d24253ec9690f67334706d73c5d0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 39/57] fix: save the local configuration, and load partial
 ones over the defaults

---
 src/config/mod.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 73d62f8..494c2ee 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -522,7 +522,13 @@ impl Local {
     }
 
     fn load(&mut self, content: &str) -> io::Result<()> {
-        *self = serde_json::from_str(content)?;
+        // settings that are missing from the content keep their current values
+        let changes: serde_json::Map<String, serde_json::Value> = serde_json::from_str(content)?;
+        let mut settings = serde_json::to_value(&*self)?;
+        for (name, value) in changes {
+            settings[name.as_str()] = value;
+        }
+        *self = serde_json::from_value(settings)?;
         Ok(())
     }
 
@@ -559,16 +565,20 @@ impl Local {
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
-    // TODO actually write to file once util/codecs is implemented
+    /// Only the version and the settings that differ from their default values are written.
     pub fn save_to_file(&self, filename: &str) -> io::Result<()> {
-        Ok(())
-        /*return codecs.SaveNonDefaultValuesToFile(
-            filename,
-            cfg,
-            DEFAULT_LOCAL,
-            vec!["Version".to_owned()],
-            true,
-        );*/
+        let defaults = serde_json::to_value(Self::default())?;
+        let mut settings = serde_json::to_value(self)?;
+        if let Some(settings) = settings.as_object_mut() {
+            settings.retain(|name, value| name == "version" || defaults[name.as_str()] != *value);
+        }
+        let f = fs::OpenOptions::new()
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .mode(0o600)
+            .open(filename)?;
+        Ok(serde_json::to_writer_pretty(f, &settings)?)
     }
 
     /// Returns true iff SRV response verification enforced.
-- 
2.43.0


From 52983c8602cc9b952d91c3fbc958a19fea87040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 40/57] fix: creating a genesis block survives unsupported
 protocols and an unfunded rewards pool

---
 src/data/bookkeeping/genesis.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 12b0b70..c0b26ae 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -73,7 +73,7 @@ impl Genesis {
         id: &str,
         hash: crypto::CryptoHash,
     ) -> Result<Block, ()> {
-        let params = &config::CONSENSUS.0[&proto];
+        let params = config::CONSENSUS.0.get(&proto).ok_or(())?;
 
         let mut genesis_rewards_state = RewardsState {
             fee_sink: gen_bal.fee_sink,
@@ -84,7 +84,11 @@ impl Genesis {
             rewards_recalculation_round: basics::Round(params.rewards_rate_refresh_interval),
         };
 
-        let initial_rewards = gen_bal.balances[&gen_bal.rewards_pool].micro_algos.0;
+        // an account without an allocation starts out empty
+        let initial_rewards = gen_bal
+            .balances
+            .get(&gen_bal.rewards_pool)
+            .map_or(0, |pool| pool.micro_algos.0);
         if params.initial_rewards_rate_calculation {
             genesis_rewards_state.rewards_rate = initial_rewards.saturating_sub(params.min_balance)
                 / params.rewards_rate_refresh_interval;
-- 
2.43.0


From 7799d05a1f849dc3a870dfabfc6171e7014c3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 41/57] fix: report missing or malformed genesis files instead
 of panicking

---
 src/data/bookkeeping/genesis.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index c0b26ae..b747779 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -127,9 +127,8 @@ impl Genesis {
     // TODO update once actual JSON encoding is implemented
     fn load_from_file<P: AsRef<std::path::Path>>(genesis_file: P) -> Result<Genesis, ()> {
         // Load genesis.json
-        let file = std::fs::File::open(&genesis_file).unwrap();
-        let genesis: Genesis = rmp_serde::decode::from_read(file).unwrap();
-        Ok(genesis)
+        let file = std::fs::File::open(&genesis_file).map_err(|_| ())?;
+        rmp_serde::decode::from_read(file).map_err(|_| ())
     }
 
     /// ID is the effective Genesis identifier - the combination
-- 
2.43.0


From 3ffb5cee375dc8fe768b834bc7cfaa23859f81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 42/57] fix: sign transactions with algokey instead of
 panicking

---
 src/bin/algokey/sign.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1abe857..04abf5b 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -6,19 +6,20 @@ use std::io::{self, Read};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
-use ed25519_dalek::{Keypair, SECRET_KEY_LENGTH};
+use ed25519_dalek::{Keypair, SecretKey, SECRET_KEY_LENGTH};
 
 use algorsand::crypto::mnemonic;
 use algorsand::data::{basics, transactions::Transaction};
+use algorsand::protocol;
 
 #[derive(Parser)]
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct SignCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Private mnemonic phrase
-    #[clap(short = 'm', long = "mnemonic")]
+    #[clap(short = 'm', long = "mnemonic", default_value = "")]
     mnemonic: String,
     /// Transaction input filename
     #[clap(short = 't', long = "txfile", required = true)]
@@ -31,11 +32,19 @@ pub struct SignCmd {
 impl SignCmd {
     pub fn entrypoint(&self) {
         let seed = load_keyfile_or_mnemonic(&self.sk_file, &self.mnemonic);
-        let kp = Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).unwrap();
+        let public = (&secret).into();
+        let kp = Keypair { secret, public };
 
         // load tx from file
-        let in_f = fs::File::open(&self.tx_file).unwrap();
-        let tx: Transaction = rmp_serde::decode::from_read(in_f).unwrap();
+        let raw = fs::read(&self.tx_file).unwrap_or_else(|e| {
+            eprintln!("Cannot read transaction: {}", e);
+            std::process::exit(1);
+        });
+        let tx: Transaction = protocol::decode(&raw).unwrap_or_else(|e| {
+            eprintln!("Cannot decode transaction: {}", e);
+            std::process::exit(1);
+        });
 
         // sign tx
         let mut sig_tx = tx.sign(&kp);
@@ -44,8 +53,10 @@ impl SignCmd {
         }
 
         // write signed tx back to file
-        let mut out_f = fs::File::open(&self.out_file).unwrap();
-        rmp_serde::encode::write(&mut out_f, &sig_tx).unwrap();
+        if let Err(e) = fs::write(&self.out_file, protocol::encode(&sig_tx)) {
+            eprintln!("Cannot write signed transaction: {}", e);
+            std::process::exit(1);
+        }
     }
 }
 
@@ -56,9 +67,15 @@ fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LE
     }
 
     if !keyfile.is_empty() {
-        return load_sk(&keyfile).unwrap();
+        return load_sk(&keyfile).unwrap_or_else(|e| {
+            eprintln!("Cannot read key file: {}", e);
+            std::process::exit(1);
+        });
     } else if !mnemonic.is_empty() {
-        return mnemonic::phrase_to_key(mnemonic).unwrap();
+        return mnemonic::phrase_to_key(mnemonic).unwrap_or_else(|e| {
+            eprintln!("Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
     }
 
     eprintln!("Must specify one of keyfile or mnemonic");
-- 
2.43.0


From 07116163edfd54d3e0627b162ee3858d547916a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 43/57] fix: algokey takes its optional file names and exits
 with an error when it fails

---
 src/bin/algokey/export.rs   | 10 +++++++---
 src/bin/algokey/generate.rs | 10 ++++++----
 src/bin/algokey/import.rs   | 20 +++++++++++---------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 83bbe99..f99f571 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -19,13 +19,16 @@ pub struct ExportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
 impl ExportCmd {
     pub fn entrypoint(&self) {
-        let seed = load_sk(&self.sk_file).unwrap();
+        let seed = load_sk(&self.sk_file).unwrap_or_else(|e| {
+            eprintln!("[Error] Could not read private key from file: {}", e);
+            std::process::exit(1);
+        });
         let words = mnemonic::key_to_mnemonic(seed);
 
         let key = SecretKey::from_bytes(&seed).unwrap();
@@ -37,7 +40,8 @@ impl ExportCmd {
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index b77e96d..0566b03 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -17,10 +17,10 @@ use algorsand::data::basics::address::Address;
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct GenerateCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile")]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
@@ -41,13 +41,15 @@ impl GenerateCmd {
 
         if !self.sk_file.is_empty() {
             if let Err(e) = write_sk(&self.sk_file, &seed) {
-                println!("[Error] Could not write private key to file: {}", e);
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 799d009..36f361d 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -22,18 +22,18 @@ pub struct ImportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename to write to
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
 impl ImportCmd {
     pub fn entrypoint(&self) {
-        let seed = mnemonic::phrase_to_key(&self.mnemonic);
-        if let Err(e) = seed.as_ref() {
-            println!("[Error] Invalid mnemonic provided: {}", e);
-        }
+        let seed = mnemonic::phrase_to_key(&self.mnemonic).unwrap_or_else(|e| {
+            eprintln!("[Error] Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
 
-        let key = SecretKey::from_bytes(seed.as_ref().unwrap()).unwrap();
+        let key = SecretKey::from_bytes(&seed).unwrap();
         let pk: PublicKey = (&key).into();
         let pk_chk = Address(*pk.as_bytes()).to_string();
 
@@ -41,14 +41,16 @@ impl ImportCmd {
         println!("Public key: {}", pk_chk);
 
         if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, seed.as_ref().unwrap()) {
-                println!("[Error] Could not write private key to file: {}", e);
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From 78a09c1fec6c62ecdefb99ce01aecb84b093d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 44/57] fix: algokey picks the default key dilution and reports
 bad arguments

---
 src/bin/algokey/part.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index e83a3d3..92adf99 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -39,7 +39,7 @@ pub struct PartGenerateCmd {
     #[clap(short, long, required = true)]
     last: u64,
     /// Key dilution (default: sqrt(last-first))
-    #[clap(short, long)]
+    #[clap(short, long, default_value_t = 0)]
     dilution: u64,
     /// Address of parent account
     #[clap(short, long)]
@@ -78,12 +78,17 @@ impl PartCmd {
 impl PartGenerateCmd {
     pub fn entrypoint(&self) {
         let key_dilution = match self.dilution {
-            0 => 1 + ((self.last - self.first) as f64).sqrt() as u64,
+            0 => 1 + (self.last.saturating_sub(self.first) as f64).sqrt() as u64,
             _ => self.dilution,
         };
 
+        let parent = Address::from_str(&self.parent).unwrap_or_else(|e| {
+            eprintln!("Failed to parse parent address: {}", e);
+            std::process::exit(1);
+        });
+
         let res = account::Participation::fill_db_with_participation_keys(
-            Address::from_str(&self.parent).unwrap(),
+            parent,
             Round(self.first),
             Round(self.last),
             key_dilution,
-- 
2.43.0


From e8a4051164ccc7ed2e26578eeff74cf263db1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:32 +0000
Subject: [PATCH 45/57] fix: mnemonics work from any directory

---
 src/crypto/mnemonic.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/crypto/mnemonic.rs b/src/crypto/mnemonic.rs
index 7fff7e6..24b3255 100644
--- a/src/crypto/mnemonic.rs
+++ b/src/crypto/mnemonic.rs
@@ -4,8 +4,6 @@
 //! An implementation of
 
 use std::convert::TryInto;
-use std::fs::File;
-use std::io::{BufRead, BufReader};
 
 use lazy_static::lazy_static;
 use sha2::{Digest, Sha512Trunc256};
@@ -114,15 +112,9 @@ pub fn mnemonic_to_key(mnemonic: &[String]) -> Result<[u8; KEY_LEN_BYTES], Mnemo
 }
 
 fn load_mnemonic_file() -> Vec<String> {
-    let mut wordlist = Vec::new();
-    let f = File::open("./data/mnemonics_wordlist.txt").unwrap();
-
-    for word in BufReader::new(f).lines() {
-        if word.is_err() {
-            continue;
-        }
-        wordlist.push(word.unwrap().clone());
-    }
+    // part of the program, so that it works from any directory
+    let file = include_str!("../../data/mnemonics_wordlist.txt");
+    let wordlist: Vec<String> = file.lines().map(|word| word.to_owned()).collect();
 
     if wordlist.len() != (1 << BITS_PER_WORD) {
         panic!(
-- 
2.43.0


From 4f7b649c947dde676aafd5d0b900663e3e2ca3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 46/57] hook: block content check under cfg(verif)

---
 src/data/bookkeeping/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 272218e..8db3510 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -794,3 +794,13 @@ impl Hashable for BlockHeader {
         (protocol::BLOCK_HEADER, protocol::encode(&self))
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn contents_match_header(block: &Block) -> bool {
+        block.contents_match_header()
+    }
+}
-- 
2.43.0


From a24c255684f2f754d901e9c3167171c6ef04c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 47/57] hook: account balance arithmetic under cfg(verif)

---
 src/data/basics/teal.rs         | 10 +++++++
 src/data/basics/units.rs        | 14 +++++++++
 src/data/basics/user_balance.rs | 51 +++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index a982ab7..7935260 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -255,3 +255,13 @@ impl TealKeyValue {
         schema
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn to_teal_value(delta: &ValueDelta) -> Option<TealValue> {
+        delta.to_teal_value()
+    }
+}
diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 3be9100..11d1dab 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -129,3 +129,17 @@ mod tests {
         }
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn sub_capped(a: Round, b: Round) -> Round {
+        a.sub_capped(b)
+    }
+
+    pub fn round_up_to_multiple_of(a: Round, b: Round) -> Round {
+        a.round_up_to_multiple_of(b)
+    }
+}
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 5fae968..863ad86 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -651,3 +651,54 @@ mod tests {
         );
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn money(
+        data: &AccountData,
+        proto: &config::ConsensusParams,
+        level: u64,
+    ) -> (MicroAlgos, MicroAlgos) {
+        data.money(proto, level)
+    }
+
+    pub fn pending_rewards(
+        proto: &config::ConsensusParams,
+        algos: MicroAlgos,
+        base: u64,
+        level: u64,
+    ) -> MicroAlgos {
+        AccountData::default().pending_rewards(proto.clone(), algos, base, level)
+    }
+
+    pub fn with_updated_rewards(
+        data: &AccountData,
+        proto: &config::ConsensusParams,
+        level: u64,
+    ) -> AccountData {
+        data.with_updated_rewards(proto, level)
+    }
+
+    pub fn min_balance(data: &AccountData, proto: &config::ConsensusParams) -> MicroAlgos {
+        data.min_balance(proto)
+    }
+
+    pub fn key_dilution(data: &AccountData, proto: &config::ConsensusParams) -> u64 {
+        data.key_dilution(proto.clone())
+    }
+
+    pub fn normalized_online_balance(data: &AccountData, proto: &config::ConsensusParams) -> u64 {
+        data.normalized_online_balance(proto.clone())
+    }
+
+    pub fn app_address(index: AppIndex) -> Address {
+        index.address()
+    }
+
+    pub fn balance_record_hash(addr: Address, account_data: AccountData) -> crypto::CryptoHash {
+        crypto::hash_obj(&BalanceRecord { addr, account_data })
+    }
+}
-- 
2.43.0


From 57faa5228450135fce8fcb973fd0d2b7380ba7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 48/57] hook: transaction liveness and references under
 cfg(verif)

---
 src/data/signed_tx_group.rs          | 10 +++++++
 src/data/transactions/application.rs | 14 ++++++++++
 src/data/transactions/transaction.rs | 41 ++++++++++++++++++++++++++++
 3 files changed, 65 insertions(+)

diff --git a/src/data/signed_tx_group.rs b/src/data/signed_tx_group.rs
index 73366d7..ac5d0fc 100644
--- a/src/data/signed_tx_group.rs
+++ b/src/data/signed_tx_group.rs
@@ -45,3 +45,13 @@ impl SignedTxVec {
 /// Represents an invalid GroupCounter value.
 /// It's being used to indicate the absence of an entry within a Vec<SignedTxGroup> with a particular GroupCounter value.
 const INVALID_SIGNED_TX_GROUP_COUNTER: u64 = u64::MAX;
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn group_id(txs: Vec<SignedTx>) -> TxID {
+        SignedTxVec(txs).id()
+    }
+}
diff --git a/src/data/transactions/application.rs b/src/data/transactions/application.rs
index edd80a6..5da98b6 100644
--- a/src/data/transactions/application.rs
+++ b/src/data/transactions/application.rs
@@ -236,3 +236,17 @@ impl AppCallFields {
         }
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn address_by_index(
+        fields: &AppCallFields,
+        index: u64,
+        sender: basics::Address,
+    ) -> Result<basics::Address, ()> {
+        fields.address_by_index(index, sender)
+    }
+}
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index 89300d2..f296587 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -612,3 +612,44 @@ impl TxContext for ExplicitTxContext {
         self.gen_hash.clone()
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn alive(
+        header: &Header,
+        explicit_round: basics::Round,
+        proto: &config::ConsensusParams,
+        gen_id: &str,
+        gen_hash: &CryptoHash,
+    ) -> Result<(), InvalidTx> {
+        header.alive(&ExplicitTxContext {
+            explicit_round,
+            proto: proto.clone(),
+            gen_id: gen_id.to_owned(),
+            gen_hash: gen_hash.clone(),
+        })
+    }
+
+    pub fn relevant_addrs(tx: &Transaction, spec: &SpecialAddresses) -> Vec<basics::Address> {
+        tx.relevant_addrs(spec)
+    }
+
+    pub fn match_address(
+        tx: &Transaction,
+        addr: &basics::Address,
+        spec: &SpecialAddresses,
+    ) -> bool {
+        tx.match_address(addr, spec)
+    }
+
+    pub fn tx_amount(tx: &Transaction) -> basics::MicroAlgos {
+        tx.tx_amount()
+    }
+
+    pub fn receiver(tx: &Transaction) -> Option<basics::Address> {
+        tx.get_receiver_address()
+    }
+}
-- 
2.43.0


From 87c1037e2ca418acb1a15d281dd3da923215a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 49/57] hook: committee credentials under cfg(verif)

---
 src/data/committee/credential.rs | 55 ++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index c88cb66..1299669 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -229,3 +229,58 @@ impl Hashable for HashableCredential {
         (protocol::CREDENTIAL, protocol::encode(&self))
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub struct Cred(Credential);
+
+    pub fn prove(secrets: &crypto::VrfKeypair, sel: &impl Selector) -> crypto::VrfProof {
+        UnauthenticatedCredential::new(secrets, sel).proof
+    }
+
+    pub fn verify<S: Selector>(
+        proof: crypto::VrfProof,
+        proto: &config::ConsensusParams,
+        record: BalanceRecord,
+        selector: S,
+        total_money: basics::MicroAlgos,
+    ) -> Result<Cred, Error> {
+        let membership = Membership {
+            record,
+            selector,
+            total_money,
+        };
+        UnauthenticatedCredential { proof }
+            .verify(proto, &membership)
+            .map(Cred)
+    }
+
+    impl Cred {
+        pub fn weight(&self) -> u64 {
+            self.0.weight
+        }
+
+        pub fn selected(&self) -> bool {
+            self.0.selected()
+        }
+
+        pub fn vrf_out(&self) -> crypto::CryptoHash {
+            self.0.vrf_out.clone()
+        }
+
+        pub fn lowest_output_digest(&mut self) -> crypto::CryptoHash {
+            self.0.lowest_output_digest()
+        }
+
+        pub fn lt(&mut self, other: &mut Cred) -> bool {
+            self.0.lt(&mut other.0)
+        }
+
+        pub fn equals(&self, other: &Cred) -> bool {
+            self.0 == other.0
+        }
+    }
+}
-- 
2.43.0


From 7c9276b550a345b621b892358049f15ee8f4c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 50/57] hook: account manager and root keys under cfg(verif)

---
 src/data/account.rs         | 10 ++++++++++
 src/data/account_manager.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/data/account.rs b/src/data/account.rs
index e0de034..48f22ca 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -316,3 +316,13 @@ impl Participation {
     }
     */
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn import(seed: [u8; 32]) -> Result<Root, Error> {
+        Root::import(seed)
+    }
+}
diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index cda2356..cd7a7c1 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -170,3 +170,36 @@ impl PartialEq for ParticipationKeyIdentity {
 }
 
 impl Eq for ParticipationKeyIdentity {}
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    #[derive(Default)]
+    pub struct Manager(AccountManager);
+
+    impl Manager {
+        pub fn keys(&self, round: basics::Round) -> Vec<&account::Participation> {
+            self.0.keys(round)
+        }
+
+        pub fn has_live_keys(&self, from: basics::Round, to: basics::Round) -> bool {
+            self.0.has_live_keys(from, to)
+        }
+
+        pub fn add_participation(&mut self, participation: account::Participation) -> bool {
+            self.0.add_participation(participation)
+        }
+
+        pub fn delete_old_keys(
+            &mut self,
+            latest_header: bookkeeping::BlockHeader,
+            cc_sigs: HashMap<basics::Address, basics::Round>,
+            agreement_proto: config::ConsensusParams,
+        ) {
+            self.0
+                .delete_old_keys(latest_header, cc_sigs, agreement_proto)
+        }
+    }
+}
-- 
2.43.0


From 5b4ab522374156bad00c458b0ddf4e4c00356770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 51/57] hook: genesis and local configuration under cfg(verif)

---
 src/config/mod.rs               | 24 +++++++++
 src/data/bookkeeping/genesis.rs | 86 +++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 494c2ee..508c9b3 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -719,3 +719,27 @@ pub fn get_default_config_file_path() -> io::Result<PathBuf> {
         )),
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub use super::keyfile::*;
+
+    pub fn load_from_disk(dir: &str) -> Result<Local> {
+        Local::load_from_disk(&dir)
+    }
+
+    pub fn merge_from_dir(local: &mut Local, dir: &str) -> Result<()> {
+        local.merge_from_dir(&dir)
+    }
+
+    pub fn dns_bootstrap(local: &Local, network: &str) -> String {
+        local.dns_bootstrap(network)
+    }
+
+    pub fn dns_bootstrap_array(local: &Local, network: &str) -> Vec<String> {
+        local.dns_bootsrap_array(network)
+    }
+}
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index b747779..427fa25 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -196,3 +196,89 @@ impl GenesisBalances {
         }
     }
 }
+
+/// Access for the verification harness (compiled only with `--cfg verif`).
+#[cfg(verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn create_block(
+        proto: protocol::ConsensusVersion,
+        balances: HashMap<basics::Address, basics::AccountData>,
+        fee_sink: basics::Address,
+        rewards_pool: basics::Address,
+        timestamp: u64,
+        id: &str,
+        hash: crypto::CryptoHash,
+    ) -> Result<Block, ()> {
+        let balances = GenesisBalances::with_timestamp(balances, fee_sink, rewards_pool, timestamp);
+        Genesis::create_block(proto, balances, id, hash)
+    }
+
+    pub struct Gen(Genesis);
+
+    /// A genesis description without any field set, apart from the network and the protocol.
+    pub fn genesis(network: protocol::NetworkID, proto: protocol::ConsensusVersion) -> Gen {
+        Gen(Genesis {
+            schema_id: String::new(),
+            network,
+            proto,
+            allocation: Vec::new(),
+            rewards_pool: String::new(),
+            fee_sink: String::new(),
+            timestamp: 0,
+            comment: String::new(),
+            dev_mode: false,
+        })
+    }
+
+    pub fn load_from_file(path: &std::path::Path) -> Result<Gen, ()> {
+        Genesis::load_from_file(path).map(Gen)
+    }
+
+    impl Gen {
+        pub fn set_schema_id(&mut self, x: &str) {
+            self.0.schema_id = x.to_owned();
+        }
+
+        pub fn set_rewards_pool(&mut self, x: &str) {
+            self.0.rewards_pool = x.to_owned();
+        }
+
+        pub fn set_fee_sink(&mut self, x: &str) {
+            self.0.fee_sink = x.to_owned();
+        }
+
+        pub fn set_timestamp(&mut self, x: u64) {
+            self.0.timestamp = x;
+        }
+
+        pub fn set_comment(&mut self, x: &str) {
+            self.0.comment = x.to_owned();
+        }
+
+        pub fn set_dev_mode(&mut self, x: bool) {
+            self.0.dev_mode = x;
+        }
+
+        pub fn allocate(&mut self, address: &str, comment: &str, state: basics::AccountData) {
+            self.0.allocation.push(GenesisAllocation {
+                address: address.to_owned(),
+                comment: comment.to_owned(),
+                state,
+            });
+        }
+
+        pub fn id(&self) -> String {
+            self.0.id()
+        }
+
+        pub fn hash(&self) -> crypto::CryptoHash {
+            crypto::hash_obj(&self.0)
+        }
+
+        pub fn encode(&self) -> Vec<u8> {
+            protocol::encode(&self.0)
+        }
+    }
+}
-- 
2.43.0


From e87b8b9ecd8ab2076a0bcd0d20db27cc39ca879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 52/57] hook: committee credentials name the balance record
 they take

---
 src/data/committee/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 1299669..506cea6 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -233,6 +233,7 @@ impl Hashable for HashableCredential {
 /// Access for the verification harness (compiled only with `--cfg verif`).
 #[cfg(verif)]
 pub mod verif_hook {
+    use super::super::BalanceRecord;
     use super::*;
 
     pub struct Cred(Credential);
-- 
2.43.0


From 3f8bbc6898dadd2bf0bfb4309c9904387a881c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:25 +0000
Subject: [PATCH 53/57] fix: sortition selects the right number of times for
 large stakes

---
 src/data/committee/sortition.rs | 43 ++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/data/committee/sortition.rs b/src/data/committee/sortition.rs
index 5e70a73..bc81e05 100644
--- a/src/data/committee/sortition.rs
+++ b/src/data/committee/sortition.rs
@@ -6,7 +6,6 @@ use num::{
     rational::BigRational,
     ToPrimitive,
 };
-use statrs::distribution::{Binomial, DiscreteCDF};
 
 use crate::crypto;
 
@@ -38,12 +37,44 @@ pub fn select(
     sortition_binomial_cdf_walk(money, p, cratio)
 }
 
+/// Returns the smallest number of successes whose cumulative probability reaches `ratio`,
+/// for `n` trials that succeed with probability `p` each.
+///
+/// Adds up the probabilities of 0, 1, ... successes, each of which follows from the previous one.
+/// They can be smaller than any `f64`, so that they are kept as multiples of a power of two.
 fn sortition_binomial_cdf_walk(n: u64, p: f64, ratio: f64) -> u64 {
-    let bin = Binomial::new(p, n).unwrap();
-    (0..n)
-        .into_iter()
-        .find(|&i| bin.cdf(i) >= ratio)
-        .unwrap_or(n)
+    const STEP: f64 = 512.0;
+
+    if ratio <= 0.0 || p.is_nan() || p <= 0.0 {
+        return 0;
+    } else if p >= 1.0 {
+        return n;
+    }
+
+    // the probability of i successes, and of at most i, are pmf * 2^exponent and cdf * 2^exponent
+    let log_pmf = n as f64 * (-p).ln_1p() / std::f64::consts::LN_2;
+    let mut exponent = (log_pmf / STEP).ceil() * STEP;
+    let mut pmf = (log_pmf - exponent).exp2();
+    let mut cdf = pmf;
+
+    let odds = p / (1.0 - p);
+    for i in 0..n {
+        if cdf * exponent.exp2() >= ratio {
+            return i;
+        }
+        pmf *= (n - i) as f64 / (i + 1) as f64 * odds;
+        if cdf + pmf == cdf {
+            // everything that is left is too small to make a difference
+            return i;
+        }
+        cdf += pmf;
+        if exponent < 0.0 && cdf >= STEP.exp2() {
+            pmf *= (-STEP).exp2();
+            cdf *= (-STEP).exp2();
+            exponent += STEP;
+        }
+    }
+    n
 }
 
 #[cfg(test)]
-- 
2.43.0


From d7441b42b00e3fdeec71aef8675c740b553a953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 54/57] fix: algokey signs every transaction of a file

---
 src/bin/algokey/sign.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 04abf5b..1aa5c59 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -41,19 +41,25 @@ impl SignCmd {
             eprintln!("Cannot read transaction: {}", e);
             std::process::exit(1);
         });
-        let tx: Transaction = protocol::decode(&raw).unwrap_or_else(|e| {
-            eprintln!("Cannot decode transaction: {}", e);
-            std::process::exit(1);
-        });
 
-        // sign tx
-        let mut sig_tx = tx.sign(&kp);
-        if sig_tx.tx.header.sender != basics::Address(kp.public.to_bytes()) {
-            sig_tx.auth_addr = basics::Address(kp.public.to_bytes());
+        // sign all txs, which follow one another in the file
+        let mut rest = &raw[..];
+        let mut signed = Vec::new();
+        while !rest.is_empty() || signed.is_empty() {
+            let tx: Transaction = rmp_serde::from_read(&mut rest).unwrap_or_else(|e| {
+                eprintln!("Cannot decode transaction: {}", e);
+                std::process::exit(1);
+            });
+
+            let mut sig_tx = tx.sign(&kp);
+            if sig_tx.tx.header.sender != basics::Address(kp.public.to_bytes()) {
+                sig_tx.auth_addr = basics::Address(kp.public.to_bytes());
+            }
+            signed.extend(protocol::encode(&sig_tx));
         }
 
-        // write signed tx back to file
-        if let Err(e) = fs::write(&self.out_file, protocol::encode(&sig_tx)) {
+        // write signed txs back to file
+        if let Err(e) = fs::write(&self.out_file, signed) {
             eprintln!("Cannot write signed transaction: {}", e);
             std::process::exit(1);
         }
-- 
2.43.0


From b2608ca9c27b8b703b1ba61490c6392819edfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 55/57] fix: algokey refuses to overwrite the key file it
 exports or signs with

---
 src/bin/algokey/export.rs | 10 ++++++++++
 src/bin/algokey/sign.rs   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index f99f571..96077bd 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -25,6 +25,11 @@ pub struct ExportCmd {
 
 impl ExportCmd {
     pub fn entrypoint(&self) {
+        if same_file(&self.sk_file, &self.pk_file) {
+            eprintln!("[Error] Refusing to overwrite the private key with the public key");
+            std::process::exit(1);
+        }
+
         let seed = load_sk(&self.sk_file).unwrap_or_else(|e| {
             eprintln!("[Error] Could not read private key from file: {}", e);
             std::process::exit(1);
@@ -47,6 +52,11 @@ impl ExportCmd {
     }
 }
 
+/// Whether both paths name the same existing file.
+fn same_file(a: &str, b: &str) -> bool {
+    matches!((fs::canonicalize(a), fs::canonicalize(b)), (Ok(a), Ok(b)) if a == b)
+}
+
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
     let mut buf = [0; SECRET_KEY_LENGTH];
     let mut f = fs::File::open(filename)?;
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1aa5c59..bda6f12 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -58,6 +58,11 @@ impl SignCmd {
             signed.extend(protocol::encode(&sig_tx));
         }
 
+        if same_file(&self.sk_file, &self.out_file) {
+            eprintln!("Refusing to overwrite the key file with the signed transaction");
+            std::process::exit(1);
+        }
+
         // write signed txs back to file
         if let Err(e) = fs::write(&self.out_file, signed) {
             eprintln!("Cannot write signed transaction: {}", e);
@@ -66,6 +71,11 @@ impl SignCmd {
     }
 }
 
+/// Whether both paths name the same existing file.
+fn same_file(a: &str, b: &str) -> bool {
+    matches!((fs::canonicalize(a), fs::canonicalize(b)), (Ok(a), Ok(b)) if a == b)
+}
+
 fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LENGTH] {
     if !keyfile.is_empty() && !mnemonic.is_empty() {
         eprintln!("Must specify one of keyfile or mnemonic");
-- 
2.43.0


From 899e200efd82430fe569f923bb1c5fd6edf98311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 56/57] fix: algokey refuses key files of the wrong size

---
 src/bin/algokey/export.rs | 11 ++++++-----
 src/bin/algokey/sign.rs   | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 96077bd..14e24bb 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -1,8 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fs;
-use std::io::{self, Read, Write};
+use std::io::{self, Write};
 use std::os::unix::fs::OpenOptionsExt;
 use std::path::Path;
 
@@ -58,10 +59,10 @@ fn same_file(a: &str, b: &str) -> bool {
 }
 
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
-    let mut buf = [0; SECRET_KEY_LENGTH];
-    let mut f = fs::File::open(filename)?;
-    f.read_exact(&mut buf)?;
-    Ok(buf)
+    let raw = fs::read(filename)?;
+    raw.as_slice()
+        .try_into()
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "wrong size for a private key"))
 }
 
 fn write_pk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index bda6f12..4f839e2 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -1,8 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fs;
-use std::io::{self, Read};
+use std::io;
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
@@ -99,8 +100,8 @@ fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LE
 }
 
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
-    let mut buf = [0; SECRET_KEY_LENGTH];
-    let mut f = fs::File::open(filename)?;
-    f.read_exact(&mut buf)?;
-    Ok(buf)
+    let raw = fs::read(filename)?;
+    raw.as_slice()
+        .try_into()
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "wrong size for a private key"))
 }
-- 
2.43.0


From f80d3e9d9a3a70bb7f034960008e9c79763fa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 57/57] fix: algokey replaces a key file only after everything
 else succeeded

---
 src/bin/algokey/generate.rs | 13 +++++++------
 src/bin/algokey/import.rs   | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index 0566b03..5b0b5a1 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -39,16 +39,17 @@ impl GenerateCmd {
         println!("Private key mnemonic: {}", words.join(" "));
         println!("Public key: {}", pk_chk);
 
-        if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, &seed) {
-                eprintln!("[Error] Could not write private key to file: {}", e);
+        // The private key goes last: if something fails, an existing key file is still there.
+        if !self.pk_file.is_empty() {
+            if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
+                eprintln!("[Error] Could not write public key to file: {}", e);
                 std::process::exit(1);
             }
         }
 
-        if !self.pk_file.is_empty() {
-            if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                eprintln!("[Error] Could not write public key to file: {}", e);
+        if !self.sk_file.is_empty() {
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
+                eprintln!("[Error] Could not write private key to file: {}", e);
                 std::process::exit(1);
             }
         }
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 36f361d..6a5054e 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -40,16 +40,17 @@ impl ImportCmd {
         println!("Private key mnemonic: {}", self.mnemonic);
         println!("Public key: {}", pk_chk);
 
-        if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, &seed) {
-                eprintln!("[Error] Could not write private key to file: {}", e);
+        // The private key goes last: if something fails, an existing key file is still there.
+        if !self.pk_file.is_empty() {
+            if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
+                eprintln!("[Error] Could not write public key to file: {}", e);
                 std::process::exit(1);
             }
         }
 
-        if !self.pk_file.is_empty() {
-            if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                eprintln!("[Error] Could not write public key to file: {}", e);
+        if !self.sk_file.is_empty() {
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
+                eprintln!("[Error] Could not write private key to file: {}", e);
                 std::process::exit(1);
             }
         }
-- 
2.43.0

