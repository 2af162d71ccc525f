From c6bbadf8a11825fcffdb9e0b6ac0d1e28dd2eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:24 +0000
Subject: [PATCH 01/15] fix: decode_var_int reads 2^prefix bytes, not prefix +
 1

The two most significant bits of a variable-length integer are the base-2
logarithm of its length (RFC 9000, section 16): 0x80 and 0xc0 prefixes are
4 and 8 byte encodings, which were decoded as 3 and 4 bytes.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..639fd7d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From f2aba03296ad3c17ad82f270335d3712f5ed1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:25 +0000
Subject: [PATCH 02/15] fix: honour the OFF and LEN bits of received STREAM
 frames

`type_byte & 0x04 == 1` is never true, so the offset and length fields were
read as stream data and every later frame was swallowed.
---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..8714bbf 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -298,8 +298,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 == 0x04;
+        let has_length = type_byte & 0x02 == 0x02;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From 00e09e31aaf640230e7615a8e09dd3162535d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 03/15] fix: a CRYPTO frame carries length bytes, whatever its
 offset

The offset field is a position in the crypto stream (RFC 9000, section 19.6);
adding it to the length over-read the frame for every non-zero offset.
---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 8714bbf..cb2fb31 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From c79baef433804004fd924d76a1c0f5b7fbbbd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:27 +0000
Subject: [PATCH 04/15] fix: reject frame types above 0xff instead of
 truncating them

A frame type such as 0x100 was masked to its low byte and parsed as PADDING.
---
 src/frame.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index cb2fb31..a9daa31 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -798,7 +798,10 @@ where
     T: Iterator<Item = error::Result<u8>>,
 {
     let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    if type_byte > u64::from(u8::MAX) {
+        return Err(Error::InternalError("Invalid type byte"));
+    }
+    let type_byte = type_byte as u8;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From ebcf3df37a3f002e81b3195b8c9736b52a1e50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 05/15] fix: truncated packet numbers cover twice the
 unacknowledged range

RFC 9000 section 17.1 requires it for the peer to be able to recover the full
packet number: packet 1200 with 1000 acknowledged was sent as one byte, which
any receiver expecting 1001 reads as 944.
---
 src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..9738c62 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,7 +48,8 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // one bit more than the difference needs, see rfc-editor.org/rfc/rfc9000#section-a.2
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
-- 
2.43.0


From b4277fcc483f6713bec34a11fd444c2204ed7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:29 +0000
Subject: [PATCH 06/15] fix: reconstruct packet numbers around the next
 expected one

The shifts were by the number of bytes instead of bits, and the comparison
used the most significant half of the largest packet number, so no truncated
number was recovered once a packet had been received. Use the algorithm of
RFC 9000 appendix A.3.
---
 src/connection.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 9738c62..d996a26 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -204,15 +204,18 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            // see rfc-editor.org/rfc/rfc9000#section-a.3
+            let expected_pn = x + 1;
+            let pn_win = 1u64 << (8 * pn_length);
+            let pn_hwin = pn_win / 2;
+            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
+            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
+                candidate_pn + pn_win
+            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
+                candidate_pn - pn_win
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate_pn
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From 59a3363d1d1f0476037b21e859771f4bc5b4c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 07/15] fix: receive packets whose packet number is shorter
 than 4 bytes

Four bytes were consumed for the packet number whatever its length, so the
first bytes of the payload were lost and the packet failed to decrypt; the
Handshake packet also reconstructed its number from all four bytes.
---
 src/packet.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..dc944fa 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -259,13 +259,15 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        // the payload starts directly after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
@@ -359,13 +361,15 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        // the payload starts directly after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
@@ -439,16 +443,18 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
+        // the payload starts directly after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
             var_bytes_from_stream(stream, length as usize - packet_number_length)?;
         // create associated data
@@ -677,13 +683,15 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        // the payload starts directly after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data = utils::all_bytes_from_stream(stream)?;
-- 
2.43.0


From d6e6a11a0e9c74e5a2b2a592ca2c386a5460ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:32 +0000
Subject: [PATCH 08/15] fix: a Length field smaller than the packet number is
 an error

The subtraction underflowed: a panic in debug builds, a read of up to 2^64
bytes in release builds, on an unauthenticated datagram.
---
 src/packet.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index dc944fa..395bf1c 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -270,8 +270,10 @@ impl PacketInitial {
         var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -372,8 +374,10 @@ impl PacketZeroRtt {
         var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -455,8 +459,10 @@ impl PacketHandshake {
         var_bytes_from_stream(stream, packet_number_length)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From e77b6b1b0d9c6e5f3cab8e3f2c7287494c398211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:33 +0000
Subject: [PATCH 09/15] fix: return the header error instead of panicking on a
 malformed packet

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 395bf1c..9f308ae 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -787,7 +787,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From 821e625048d9e3d1bd8c1d267d489f6bc7a41cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 10/15] fix: a received Retry packet is an error, not a panic

Retry handling is not implemented yet, but any peer can send one.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 9f308ae..ae77c82 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -542,7 +542,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 86c1dc3e9531fe754b6b7838152c63ecc9eb69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:35 +0000
Subject: [PATCH 11/15] fix: serialize the connection ids of version
 negotiation headers

They were written as zeroes, and ids longer than 20 bytes panicked.
---
 src/packet.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index ae77c82..a22ccc4 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -116,17 +116,26 @@ impl LongPacketHeader {
         Ok(rv)
     }
     pub fn to_bytes(&self) -> Vec<u8> {
+        // version negotiation ids may be longer than 20 bytes and are stored separately
+        let (destination_connection_id, source_connection_id) = match self.version_negotiation {
+            Some(ref x) => (
+                x.destination_connection_id.clone(),
+                x.source_connection_id.clone(),
+            ),
+            None => (
+                self.destination_connection_id
+                    .to_var_bytes(self.destination_connection_id_length as usize),
+                self.source_connection_id
+                    .to_var_bytes(self.source_connection_id_length as usize),
+            ),
+        };
         [
             &[self.header_byte][..],
             &self.version.to_be_bytes(),
             &[self.destination_connection_id_length][..],
-            &self
-                .destination_connection_id
-                .to_var_bytes(self.destination_connection_id_length as usize)[..],
+            &destination_connection_id[..],
             &[self.source_connection_id_length][..],
-            &self
-                .source_connection_id
-                .to_var_bytes(self.source_connection_id_length as usize)[..],
+            &source_connection_id[..],
         ]
         .concat()
     }
-- 
2.43.0


From 5f043619b610745a2904259782d712e413e9907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 12/15] fix: a protected payload shorter than the tag is an
 error, not a panic

---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From 301ae2ed1be48165b5b3ddf505cd15dc2413fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 13/15] fix: drop unroutable datagrams instead of panicking

Any malformed datagram, or one for an unknown connection id, ended accept().
---
 src/routing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..5d3e6d3 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -104,7 +104,10 @@ impl InternalQuicSocket {
             if ret_datagram {
                 return Ok(datagram);
             } else {
-                self.route_datagram(datagram).unwrap();
+                // a datagram that cannot be routed is dropped
+                if let Err(x) = self.route_datagram(datagram) {
+                    eprintln!("{:?}", x);
+                }
             }
         }
     }
-- 
2.43.0


From b4eb4d88479205620126fb098ce0a8c0625c857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:39 +0000
Subject: [PATCH 14/15] fix: encode all fields of the preferred_address
 transport parameter

The connection id length and the stateless reset token (RFC 9000, section
18.2) were missing, so no peer could parse the parameter.
---
 src/transport_parameters.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..36e08f0 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -8,6 +8,7 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
@@ -17,7 +18,9 @@ impl PreferredAddress {
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[self.connection_id.len() as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
         .concat()
     }
-- 
2.43.0


From 12db103ed94c3cee90ee20b1b041bcb56b0e2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 15/15] fix: route version negotiation packets by their
 destination id

The header kept a zero id for them, so they never reached the connection they name.
---
 src/packet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index a22ccc4..267d8ca 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -80,8 +80,16 @@ impl LongPacketHeader {
         } else {
             // version negotiation must not be limited to the supported version's id length rules
             let dcid_len = u8::from_datagram(stream)?;
-            let dcid = U160::zero();
             let destination_connection_id = var_bytes_from_stream(stream, dcid_len as usize)?;
+            // datagrams are routed by this id, ids that do not fit cannot be registered
+            let dcid = if dcid_len <= 20 {
+                var_u160_from_stream(
+                    &mut utils::make_result_stream(&destination_connection_id),
+                    dcid_len,
+                )?
+            } else {
+                U160::zero()
+            };
             let scid_len = u8::from_datagram(stream)?;
             let scid = U160::zero();
             let source_connection_id = var_bytes_from_stream(stream, scid_len as usize)?;
-- 
2.43.0

