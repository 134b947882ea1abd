From 35c56c6752da290b745961ce715de28a26c84c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 01/33] fix: ceil division must not underflow for a zero
 numerator

Bitmap::new(0) and a torrent without pieces panicked with subtract overflow (debug)
or allocated a huge vector (release).
---
 src/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 28aeedb..dc65da8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,7 +1,8 @@
 #[macro_export]
 macro_rules! unsigned_ceil_div {
     ($numerator:expr, $denominator:expr) => {{
-        1 + (($numerator - 1) / $denominator)
+        let (numerator, denominator) = ($numerator, $denominator);
+        numerator / denominator + if numerator % denominator == 0 { 0 } else { 1 }
     }};
 }
 
-- 
2.43.0


From 0e5e5f746cade021f5166c0fefe76855ec462572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 02/33] fix: order identifiers by all their bits

Ord for ID reported Equal at the first position where both identifiers have a set
bit, so it was neither a total order nor consistent with Eq, and sorting nodes by
XOR distance put them in an arbitrary order.
---
 src/data_structures/id.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..f076e79 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -219,7 +219,6 @@ impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
         for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
             match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
                 (true, false) => return Ordering::Greater,
                 (false, true) => return Ordering::Less,
                 _ => (),
-- 
2.43.0


From 0415e9a3f0be915aa7ee588fe954f0befdf31803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 03/33] fix: refuse peer messages whose length does not fit
 their kind

A piece message shorter than its header (or a truncated have, request, cancel or port)
made a remote peer panic the connection task, or read bytes behind the frame.
---
 src/peers/connection/message.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..d7bf862 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -108,6 +108,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::is_body_len_valid(id, len - BYTES_IN_LEN_PREFIX) {
+                warn!("message {} has invalid length {}", id, len);
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +149,22 @@ impl Message {
         Some(message)
     }
 
+    fn is_body_len_valid(id: u8, body_len: usize) -> bool {
+        match id {
+            CHOKE_ID => body_len == CHOKE_LEN as usize,
+            UNCHOKE_ID => body_len == UNCHOKE_LEN as usize,
+            INTERESTED_ID => body_len == INTERESTED_LEN as usize,
+            NOT_INTERESTED_ID => body_len == NOT_INTERESTED_LEN as usize,
+            HAVE_ID => body_len == HAVE_LEN as usize,
+            BITFIELD_ID => body_len >= BITFIELD_LEN as usize,
+            REQUEST_ID => body_len == REQUEST_LEN as usize,
+            PIECE_ID => body_len >= PIECE_LEN as usize,
+            CANCEL_ID => body_len == CANCEL_LEN as usize,
+            PORT_ID => body_len == PORT_LEN as usize,
+            _ => true,
+        }
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From fd078dc0bb64a466fbb92f02853b7638e114ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 04/33] fix: learning about a known peer must not reset its
 state

---
 src/peers/active_peers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..aa3078c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,11 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        self.data
+            .lock()
+            .unwrap()
+            .entry(peer)
+            .or_insert(Status::Unknown);
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -135,7 +139,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            data.entry(peer.into()).or_insert(Status::Unknown);
+        }
     }
 }
 
-- 
2.43.0


From 1318f4aa41c17fbf7252ef9dee4f69746b501682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 05/33] fix: listing or counting good peers must not mark them
 as in use

---
 src/peers/active_peers.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index aa3078c..29952b8 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -62,9 +62,18 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
+        let data = self.data.lock().unwrap();
+
+        let mut peers = Vec::new();
 
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        for cur_status in &status_priority_order {
+            let iter = data
+                .iter()
+                .filter_map(|(peer, status)| (status == cur_status).then_some(*peer))
+                .take(limit - peers.len());
+
+            peers.extend(iter);
+        }
 
         if peers.is_empty() {
             None
-- 
2.43.0


From c3c2cc5831e53c4492b843aeb8fee1b090529ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 06/33] fix: the reply to an announcement must be matched to
 its query

---
 src/dht/connection/pending.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..a885b28 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -27,7 +27,7 @@ impl PendingRequests {
     pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
         let (requested_type, _) = self.0.get(tid)?;
 
-        if *requested_type == response_type {
+        if requested_type.is_answered_by(&response_type) {
             self.0.remove(tid).map(|(_, requester)| requester)
         } else {
             None
@@ -39,6 +39,14 @@ impl PendingRequests {
     }
 }
 
+impl RequestType {
+    fn is_answered_by(&self, response_type: &RequestType) -> bool {
+        // on the wire the reply to an announcement is the same as a pong
+        self == response_type
+            || (*self == RequestType::AnnouncePeer && *response_type == RequestType::Ping)
+    }
+}
+
 impl From<&Message> for RequestType {
     fn from(item: &Message) -> Self {
         let Message::Query{arguments, ..} = item else{
-- 
2.43.0


From 8d285d32bbcc1c583e5533957614491433c0e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 07/33] fix: a reply must not crash the DHT connection when its
 asker is gone

---
 src/dht/connection/connection_manager.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..3fc78a6 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -226,13 +226,13 @@ impl ConnectionManager {
                 querying_task_channel
                     .send(FromConResp::Touch { id, from })
                     .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!("nobody waits for resp {e}"));
             }
             Response::FindNode { nodes, id } => {
                 querying_task_channel
                     .send(FromConResp::NewNodes { nodes, from, id })
                     .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!("nobody waits for resp {e}"));
             }
             Response::GetPeers {
                 values_or_nodes,
@@ -246,13 +246,13 @@ impl ConnectionManager {
                         v_or_n: values_or_nodes,
                     })
                     .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!("nobody waits for resp {e}"));
             }
             Response::AnnouncePeer { id } => {
                 querying_task_channel
                     .send(FromConResp::Touch { id, from })
                     .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!("nobody waits for resp {e}"));
             }
         }
     }
-- 
2.43.0


From bd6f66bf88adc476e795e1972768620984556847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 08/33] fix: decode a datagram from its own bytes only

---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 3fc78a6..5091bb5 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (len, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..len]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From 21503fb42e9bea97f9d9172b99becdef4c7b4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 09/33] fix: use a peer only after its complete handshake for
 the same torrent

---
 src/peers/connection/handshake.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..aa5ae0c 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,13 +1,15 @@
 use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
+use std::ops::Range;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::TcpStream;
 
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_RANGE: Range<usize> = 28..48;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -20,14 +22,15 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
+    Handshake::check_validity(buf.as_ref())?;
+
+    if &buf[INFO_HASH_RANGE] != info_hash.as_byte_ref() {
+        bail!("peer answered for a different torrent");
     }
+
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From cfd0d813f373bb2ad3381d3b13baf391f888a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 10/33] fix: end the connection at the end of its stream

---
 src/peers/connection/connection_manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..001a65a 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -107,6 +107,8 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            // end of stream or a frame which can't fit in the buffer
+            Ok(0) => return,
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
-- 
2.43.0


From d918db9f5326b69e84e52a497e164d35b9801de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 11/33] fix: an undecodable message must not take the data
 behind it along

---
 src/peers/connection/connection_manager.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 001a65a..678963e 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -120,12 +120,7 @@ async fn manager_receiver(
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message = Message::from_buf(&buf);
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -136,6 +131,11 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    error!("message_len <= data_len but buf can't be deserialize into message");
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
             } else {
                 break;
-- 
2.43.0


From 3ebc3f72bb863cd5e9f7126ce4065e4e458a1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 12/33] fix: chokes and unchokes were never delivered to the
 downloader

---
 src/peers/connection/connection_handle.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..18ba54c 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -34,7 +34,7 @@ struct PeerConnection {
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
-    let (tx, rx) = mpsc::channel(1 << 4);
+    let (tx, rx) = mpsc::unbounded_channel();
 
     (ChokeLocker { tx }, UnchokeWaiter { rx, choking: true })
 }
@@ -45,21 +45,22 @@ enum ChokingStatus {
 }
 
 struct ChokeLocker {
-    tx: mpsc::Sender<ChokingStatus>,
+    tx: mpsc::UnboundedSender<ChokingStatus>,
 }
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        // an error means that the downloader is gone, no one to tell
+        let _ = self.tx.send(ChokingStatus::Choke);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        let _ = self.tx.send(ChokingStatus::Unchoke);
     }
 }
 
 pub struct UnchokeWaiter {
-    rx: mpsc::Receiver<ChokingStatus>,
+    rx: mpsc::UnboundedReceiver<ChokingStatus>,
     choking: bool,
 }
 
-- 
2.43.0


From 9c08210762b8aab5bccaa4f3bf8091cad50c2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 13/33] fix: the last block of a piece is full-size when the
 piece length is a multiple of the block size

---
 src/peers/connection/pending_pieces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..32a5c67 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -201,7 +201,7 @@ impl PendingPieces {
         let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
 
         let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
+            self.piece_length - block_idx * BLOCK_SIZE
         } else {
             BLOCK_SIZE
         };
-- 
2.43.0


From 9415e328036d3b4ca5a7669b80524a0a7b8d32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 14/33] fix: count every block of a piece once

---
 src/peers/connection/pending_pieces.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 32a5c67..b4b2b4e 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -32,7 +32,6 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -108,9 +107,12 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        if let Block::Downloaded(_) = block {
+            return AddBlockRes::Added;
+        }
+
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
-        piece.pending -= 1;
 
         if self.blocks_per_piece == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -228,7 +230,6 @@ impl Piece {
         let data = vec![Block::default(); piece_count];
 
         Self {
-            pending: 0,
             downloaded: 0,
             data,
         }
-- 
2.43.0


From 60095d40c280fc8872f8e4aebac4f3c857299409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 15/33] fix: choosing blocks crashed because the downloader did
 not know its peer

---
 src/peers/connection/connection_handle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 18ba54c..d3a3c88 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -111,6 +111,8 @@ impl Connection {
         let (downloaded_block_tx, downloaded_block_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (download_new_piece_tx, download_new_piece_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (choker, unchoke_waiter) = choke_lock();
+        let mut pending_pieces = self.pending_pieces.clone();
+        pending_pieces.set_owner_peer(peer);
 
         match self.peers.entry(peer) {
             Occupied(_) => return,
@@ -141,7 +143,7 @@ impl Connection {
             self.rec_tx.clone(),
             downloaded_block_rx,
             download_new_piece_rx,
-            self.pending_pieces.clone(),
+            pending_pieces,
             unchoke_waiter,
             shutdown_rx,
         );
-- 
2.43.0


From 91184399294a659c80504d8d0f01957065074ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 16/33] fix: choose no more blocks than there are free slots

---
 src/peers/connection/pending_pieces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index b4b2b4e..1d0e3cf 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -153,8 +153,10 @@ impl PendingPieces {
         let now = Instant::now();
 
         for filter in filters {
+            let free_slots = block_buf.capacity() - block_buf.len();
+
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
-- 
2.43.0


From 8454a38ee11793cf22cf07674c3ab84f9062a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 17/33] fix: never request data beyond the end of a piece

---
 src/peers/connection/downloader.rs     |  4 +++-
 src/peers/connection/message.rs        |  2 +-
 src/peers/connection/pending_pieces.rs | 23 +++++++++++++----------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..4bdb565 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -33,14 +33,16 @@ enum BlockStatus {
 pub struct BlockAddress {
     pub piece_idx: usize,
     pub block_idx: usize,
+    pub length: usize,
     status: BlockStatus,
 }
 
 impl BlockAddress {
-    pub fn new(piece_idx: usize, block_idx: usize) -> Self {
+    pub fn new(piece_idx: usize, block_idx: usize, length: usize) -> Self {
         Self {
             piece_idx,
             block_idx,
+            length,
             status: BlockStatus::Queued,
         }
     }
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index d7bf862..f628f2c 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -276,7 +276,7 @@ impl From<BlockAddress> for Request {
         Self {
             index: value.piece_idx as u32,
             begin: (value.block_idx * BLOCK_SIZE) as u32,
-            length: BLOCK_SIZE as u32,
+            length: value.length as u32,
         }
     }
 }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 1d0e3cf..61d885a 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -156,7 +156,8 @@ impl PendingPieces {
             let free_slots = block_buf.capacity() - block_buf.len();
 
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
+                Self::filtered_iter_over_blocks(self.piece_length, &pieces, &mut data, filter)
+                    .take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
@@ -173,6 +174,7 @@ impl PendingPieces {
     }
 
     fn filtered_iter_over_blocks<'a>(
+        piece_length: usize,
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
         filter_closure: fn(&Block) -> bool,
@@ -185,14 +187,21 @@ impl PendingPieces {
                         .iter_mut()
                         .enumerate()
                         .filter_map(move |(block_idx, block)| {
-                            filter_closure(block)
-                                .then_some((block, BlockAddress::new(*piece_idx, block_idx)))
+                            filter_closure(block).then(|| {
+                                let length = Self::block_size(piece_length, block_idx);
+                                (block, BlockAddress::new(*piece_idx, block_idx, length))
+                            })
                         }),
                 )
             })
             .flatten()
     }
 
+    // the last block in piece might be smaller
+    fn block_size(piece_length: usize, block_idx: usize) -> usize {
+        BLOCK_SIZE.min(piece_length - block_idx * BLOCK_SIZE)
+    }
+
     fn check_block_bounds(&self, block_idx: usize, data: &[u8]) -> Result<()> {
         if block_idx >= self.blocks_per_piece {
             bail!(
@@ -202,13 +211,7 @@ impl PendingPieces {
             );
         }
 
-        let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
-
-        let block_size = if last_block_in_piece {
-            self.piece_length - block_idx * BLOCK_SIZE
-        } else {
-            BLOCK_SIZE
-        };
+        let block_size = Self::block_size(self.piece_length, block_idx);
 
         match block_size.cmp(&data.len()) {
             Ordering::Greater => Err(anyhow!(
-- 
2.43.0


From 115d50fdf86f29dda90c3bb0943a6fa1ee4b27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 18/33] fix: a block must not be taken for the same block of
 another piece

---
 src/peers/connection/downloader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 4bdb565..1782118 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -148,8 +148,8 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
-            bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
+    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx) else {
+            bail!("block wasn't requested from this peer");
         };
     let mut removed_block_addr = current_blocks.remove(idx);
 
-- 
2.43.0


From faeb408bc682e26453f72f375d8107537416ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 19/33] fix: every block but the last one of a piece crashed
 the downloader

---
 src/peers/connection/downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 1782118..832f890 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -154,7 +154,7 @@ async fn foo(
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
+        AddBlockRes::Added => (),
         AddBlockRes::Failed => {
             removed_block_addr.status = BlockStatus::Queued;
             current_blocks.push(removed_block_addr);
-- 
2.43.0


From abe05ab60fa8c47f379b7849012445421b2f311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 20/33] fix: the end of a connection crashed its downloader

---
 src/peers/connection/downloader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 832f890..b4f8e29 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -92,7 +92,9 @@ async fn manage_piece_downloader(
         select! {
             _ = shutdown_rx.recv() => { return },
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                // the connection has ended
+                let Some(block) = block else { return };
+                foo(peer, block, &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
             },
             command = new_piece_rx.recv() => {
                 match command{
@@ -100,7 +102,7 @@ async fn manage_piece_downloader(
                         PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
                         PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
                     },
-                    None => todo!(),
+                    None => return,
                 }
             },
         };
-- 
2.43.0


From b096750bc3ae529a44e65d4677c3b85a3dd0d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 21/33] fix: the last piece of a file whose length is a
 multiple of the piece length was not written

---
 src/fs/single_file_rw.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..8766b00 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -85,7 +85,12 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        let expected_bytes = self
+            .info
+            .length()
+            .saturating_sub(start as u64)
+            .min(self.info.piece_length) as usize;
+        let mut remaining_bytes = expected_bytes;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -96,7 +101,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    expected_bytes
                 );
             };
 
-- 
2.43.0


From d48200df919eb268dea128b67d0a4f63454cc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 22/33] fix: report a piece as written only after its data has
 reached the file

---
 src/fs/multi_file_rw.rs  | 2 ++
 src/fs/single_file_rw.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..481046b 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -130,6 +130,8 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 8766b00..3149953 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -76,6 +76,8 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -110,6 +112,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From c363614e83ad637e63d49d394fc96cd3b0998f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 23/33] fix: an empty file must not crash the writing of a
 piece

---
 src/fs/multi_file_rw.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 481046b..a32e5df 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -98,9 +98,14 @@ async fn write_file_chunk_from_multi_file_piece(
     start_within_piece: usize,
     end_within_piece: usize,
 ) -> Result<()> {
+    let length = end_within_piece - start_within_piece;
+
+    if length == 0 {
+        return Ok(());
+    }
+
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
-    let length = end_within_piece - start_within_piece;
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 3ab7478cfc17dad611dcb757189951dafefaf97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 24/33] fix: piece hashes freed a buffer with the wrong layout

---
 src/transcoding/metainfo.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..7c248d9 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -376,7 +376,7 @@ impl FromBencode for File {
     }
 }
 
-fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
+fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
             "Info::pieces must be 20-byte SHA1 hash values but it has len={}",
@@ -384,13 +384,10 @@ fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding
         )));
     }
 
-    let piece_hashes = unsafe {
-        let length = raw.len() / ID_LEN;
-        let capacity = raw.capacity() / ID_LEN;
-        let ptr = raw.as_mut_ptr() as *mut ID;
-        std::mem::forget(raw);
-        Vec::from_raw_parts(ptr, length, capacity)
-    };
+    let piece_hashes = raw
+        .chunks_exact(ID_LEN)
+        .map(|hash| ID::new(hash.try_into().unwrap()))
+        .collect();
 
     Ok(piece_hashes)
 }
-- 
2.43.0


From d034d521ad7b3c8d75e15b08ad5ff2d08460bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 25/33] fix: torrents must not write outside of the download
 directory

---
 src/transcoding/metainfo.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 7c248d9..6fa50a6 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -315,7 +315,9 @@ impl FromBencode for Info {
         while let Some(kv) = info.next_pair()? {
             match kv {
                 (b"name", value) => {
-                    name = Some(String::decode_bencode_object(value)?);
+                    name = Some(checked_path_component(String::decode_bencode_object(
+                        value,
+                    )?)?);
                 }
                 (b"pieces", value) => {
                     pieces = {
@@ -360,7 +362,18 @@ impl FromBencode for File {
         while let Some(kv) = file.next_pair()? {
             match kv {
                 (b"path", value) => {
-                    path = Some(Vec::<String>::decode_bencode_object(value)?);
+                    let components = Vec::<String>::decode_bencode_object(value)?;
+
+                    if components.is_empty() {
+                        return Err(bendy::decoding::Error::missing_field("path"));
+                    }
+
+                    path = Some(
+                        components
+                            .into_iter()
+                            .map(checked_path_component)
+                            .collect::<Result<_, _>>()?,
+                    );
                 }
                 (b"length", value) => {
                     length = Some(u64::decode_bencode_object(value)?);
@@ -376,6 +389,17 @@ impl FromBencode for File {
     }
 }
 
+// torrents come from strangers, names in them must stay within the download directory
+fn checked_path_component(name: String) -> Result<String, bendy::decoding::Error> {
+    if matches!(name.as_str(), "" | "." | "..") || name.contains(['/', '\\', '\0']) {
+        return Err(bendy::decoding::Error::missing_field(format!(
+            "{name:?} can't be used as a file name"
+        )));
+    }
+
+    Ok(name)
+}
+
 fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
-- 
2.43.0


From 9cc5dced28ab038272f94a19b685cfad984ce27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 26/33] fix: a peer claiming to have a piece outside of the
 torrent crashed the client

---
 src/torrent_manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..c3b3a98 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -282,6 +282,9 @@ impl TorrentManager {
                     .entry(peer)
                     .and_modify(|peer_info| peer_info.interested = false);
             }
+            ConMessageType::Have(piece_idx) if piece_idx as usize >= self.local_data.len() => {
+                warn!("piece {piece_idx} is out of bounds");
+            }
             ConMessageType::Have(piece_idx) => {
                 if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
-- 
2.43.0


From 8bfd3c5a41af54d3475628ee85a671ab43d53b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 27/33] fix: a request or cancel message from a peer crashed
 the client

---
 src/torrent_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index c3b3a98..f39cb45 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -296,9 +296,9 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
+            // TODO peers are choked, they are not supposed to send these
+            ConMessageType::Request(_) | ConMessageType::Cancel(_) => (),
             ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
         }
     }
 
-- 
2.43.0


From 17913f2af16e6fa81f564ea2d5c69122a0243d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 28/33] fix: count the peers a piece is assigned to

---
 src/torrent_manager.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index f39cb45..610a545 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -180,7 +180,10 @@ impl TorrentManager {
             .or_insert(PeerInfo::new(self.active_pieces.len()));
 
         self.active_pieces.change(piece_idx, true);
-        peer_info.working.change(piece_idx, true);
+
+        if !peer_info.working.change(piece_idx, true) {
+            self.assigned_peer_count[piece_idx] += 1;
+        }
     }
 
     fn select_piece(&mut self) -> Option<(Peer, usize, ID)> {
@@ -247,6 +250,7 @@ impl TorrentManager {
         let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
             !peer_info.choking
                 && peer_info.haves.get(piece_idx)
+                && !peer_info.working.get(piece_idx)
                 && peer_info.working.weight() == pieces_per_peer
         })?;
 
@@ -310,7 +314,20 @@ impl TorrentManager {
                 .iter_mut()
                 .zip(peer_info.haves.iter())
                 .filter(|(_, peer_has_piece)| *peer_has_piece)
-                .for_each(|(frequency, _)| *frequency -= 1)
+                .for_each(|(frequency, _)| *frequency -= 1);
+
+            for (piece_idx, _) in peer_info
+                .working
+                .iter()
+                .enumerate()
+                .filter(|(_, working)| *working)
+            {
+                self.assigned_peer_count[piece_idx] -= 1;
+
+                if self.assigned_peer_count[piece_idx] == 0 {
+                    self.active_pieces.change(piece_idx, false);
+                }
+            }
         }
     }
 
-- 
2.43.0


From a75aeda5a448dc657a01c4e5281a37b18e864b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 29/33] fix: closest nodes must be the closest ones and no more
 than 8

---
 src/dht/routing_table/table.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..ac51e92 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -140,19 +140,23 @@ impl RoutingTable {
 
         let node_bucket_idx = self.find_bucket_idx_by_id(id);
 
-        for bucket in self.data[node_bucket_idx..]
-            .iter()
-            .chain(self.data[..node_bucket_idx].iter().rev())
-        {
+        // nodes in deeper buckets have the same longest common prefix with the id
+        // so any of them might be closer than the others
+        for bucket in self.data[node_bucket_idx..].iter() {
             nodes.extend(bucket.iter_over_goods().cloned());
+        }
 
+        for bucket in self.data[..node_bucket_idx].iter().rev() {
             if nodes.len() >= K_NODE_PER_BUCKET {
                 break;
             }
+
+            nodes.extend(bucket.iter_over_goods().cloned());
         }
 
         if !nodes.is_empty() {
             nodes.sort_by(|a, b| a.cmp_by_distance_to_id(b, id));
+            nodes.truncate(K_NODE_PER_BUCKET);
             Some(nodes)
         } else {
             warn!(
-- 
2.43.0


From 40567140df6d7de005efa352fe43b2d42d36c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 30/33] fix: an identifier of wrong length in a datagram
 crashed the client

---
 src/data_structures/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index f076e79..dc8cc9d 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -185,7 +185,8 @@ impl<'de> Deserialize<'de> for ID {
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| serde::de::Error::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From 9ea1fecff81e07f4a8f33da1f5fd4af9f2a00ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 31/33] fix: a piece of a torrent without pieces is refused
 instead of crashing

---
 src/fs/single_file_rw.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 3149953..11c670d 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -50,15 +50,13 @@ impl Fs for SingleFileRw {
 
     async fn write_piece(&mut self, piece: FinishedPiece) -> Result<()> {
         match piece.idx {
+            idx if idx >= self.info.pieces.len() => {
+                bail!("piece {} is out of bounds", piece.idx)
+            }
             idx if idx < self.info.pieces.len() - 1 => {
                 self.write_middle_piece_single_file(piece).await?
             }
-            idx if idx == self.info.pieces.len() - 1 => {
-                self.write_last_piece_single_file(piece).await?
-            }
-            _ => {
-                bail!("piece {} is out of bounds", piece.idx)
-            }
+            _ => self.write_last_piece_single_file(piece).await?,
         }
 
         Ok(())
-- 
2.43.0


From f6b9151e2b2fe85555fbf26ee50a28878e604e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 32/33] fix: the end of a peer connection was not reported to
 the torrent manager

---
 src/peers/connection/connection_manager.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 678963e..471bbf5 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -70,10 +70,17 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
-        _ = shutdown_rx.recv() => {},
+        _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler.clone()) => {},
     };
+
+    let _ = peer_handler
+        .send(ConnectionMessage {
+            peer,
+            message: ConMessageType::Disconnected,
+        })
+        .await;
 }
 
 async fn manager_sender(
-- 
2.43.0


From 42b3893997e7631a1ff59dc289309011bf632b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 33/33] fix: the connection of a lost peer was kept, so the
 peer was never connected again

---
 src/torrent_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 610a545..f81d8e0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -308,6 +308,7 @@ impl TorrentManager {
 
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
+            self.connection.disconnect(&peer);
             self.inactive_peers.push((peer, status));
 
             self.frequency_map
-- 
2.43.0

