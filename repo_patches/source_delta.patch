From 01b5f90b61ba85ec04330d0db6a4742e85dde11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 01/16] fix: encode PUBACK instead of panicking when a QoS 1
 message arrives

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..ce1f35c 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -108,13 +108,13 @@ impl ToMqttBytes for Packet {
         match self {
             Self::Connect(p) => p.convert_to_mqtt(),
             Self::Publish(p) => p.convert_to_mqtt(),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::PingReq(p) => p.convert_to_mqtt(),
             Self::Subscribe(p) => p.convert_to_mqtt(),
             Self::Unsubscribe(p) => p.convert_to_mqtt(),
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From ec1235ecb489c9888bf639f38ebca5ce790a1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 02/16] fix: MessageExpiryInterval occupies five bytes, not
 four

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..f362765 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -68,7 +68,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From ed84517fd87a901b345a753b833ded6a6f32b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 03/16] fix: reject an over-long variable byte integer before
 it overflows

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ce1f35c..8e42a46 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,7 +278,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -286,6 +285,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From c18acbf3f0e9d575e8753d36437b2652e5736dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 04/16] fix: truncated packets are a decoding error, not an
 out-of-range panic

---
 src/protocol/connack.rs    | 8 +++++++-
 src/protocol/disconnect.rs | 4 +++-
 src/protocol/mod.rs        | 5 ++++-
 src/protocol/properties.rs | 9 +++++++--
 src/protocol/suback.rs     | 7 +++++--
 src/protocol/unsuback.rs   | 7 +++++--
 6 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..2c364a5 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,6 +108,10 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
+        if bytes.len() < bytes_read + 2 {
+            return Err(ConvertError::NotEnoughBytes);
+        }
+
         let flags: ConnackFlags = bytes[bytes_read].try_into()?;
         bytes_read += 1;
 
@@ -221,7 +225,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 8e42a46..53e32c2 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -405,7 +405,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f362765..c63d061 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let v = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*v), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..32b0525 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,8 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let reason: SubackReason = reason.try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +164,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..986866e 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,8 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let reason: UnsubackReason = reason.try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +154,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 6c756ef35ae9cd57dfd271b66142690ce5616ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 05/16] fix: parse every PUBACK property, and refuse a
 truncated property block

---
 src/protocol/puback.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..3b8f899 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,11 +166,14 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
+                while bytes.len() > 0 {
+                    let slice = bytes;
                     let bytes_read = match slice.get(0) {
                         Some(0x1F) => {
                             let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
@@ -193,7 +196,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    bytes = &slice[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From 832ca87e887e3d1595fc97c4cdd8b82699ce6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 06/16] fix: an unsupported packet type from the broker is an
 error, not a panic

---
 src/protocol/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 53e32c2..3329775 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            Err(ConvertError::Other(format!(
+                "Packet type {:?} not implemented",
+                ty
+            )))
         }
     };
 
-- 
2.43.0


From 90bd183dac852c906a31914459997e00a6ac30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 07/16] fix: an incoming QoS 2 message ends the connection
 instead of panicking

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..001d3f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -214,7 +214,11 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        // TODO: send pubrec
+                                        return Err(IOError::new(
+                                            ErrorKind::InvalidData,
+                                            "QoS 2 is not implemented",
+                                        ));
                                     }
                                 }
 
-- 
2.43.0


From 48fcef69f08f38119476013d4a882ca4313395cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 08/16] fix: a packet that is not a message is not reported as
 one

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 001d3f0..4a814bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,8 @@ async fn poll(
                                 sender.send(Notification::Message(format!("{:?}", m))).await;
                             }
                             m => {
-                                sender.send(Notification::Message(format!("{:?}", m))).await;
+                                error!("Unexpected packet: {:?}", m);
+                                return Err(IOError::new(ErrorKind::InvalidData, "Unexpected packet"));
                             }
                         }
                     }
-- 
2.43.0


From e35888b027b9169d7c7bbedce14f01bb4c765df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 09/16] fix: end of stream before CONNACK ends the event loop
 instead of spinning

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a814bf..4d6e504 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,9 +127,13 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ));
         }
     };
     match pkt {
-- 
2.43.0


From c190ee19c17d4c0ad2e500d688ac31c24a7af87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 10/16] fix: a connection the broker refused ends with an error

---
 src/lib.rs          | 6 +++++-
 src/protocol/mod.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d6e504..088821a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -139,7 +139,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -147,6 +147,10 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            if !matches!(reason, protocol::ConnackReason::Success) {
+                let e = format!("Connection refused: {:?}", reason);
+                return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 3329775..f770b28 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From 9c970fe179c729f46701d4e0a6b4ccc8fe554d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 11/16] fix: do not spin once every client handle is dropped

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 088821a..6939021 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,6 +169,8 @@ async fn poll(
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
 
+    let mut clients_alive = true;
+
     loop {
         tokio::select! {
             _ = ping.tick() => {
@@ -248,7 +250,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if clients_alive => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -295,7 +297,7 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    None => clients_alive = false,
                 }
             }
         }
-- 
2.43.0


From 917556bd57152ed2e5131894498d6f390ec5cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 12/16] fix: handing out the last packet id must not overflow
 the range

---
 src/pktids.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..c4678d9 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -48,23 +48,14 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
+                let pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this range is exhausted - set this node as vacant and start using next node
+                    // (if there is none, all pktids are in use and start points to the empty list)
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
-- 
2.43.0


From a7c6b507029e2775d147041ac835bf9348360337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 13/16] fix: ignore a returned packet id that is not in use

---
 src/pktids.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index c4678d9..cf44618 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -82,7 +82,10 @@ impl PktIds {
         let mut prev_idx = None;
         let mut next_idx = self.start;
         while let Some(Node::Taken { range, next }) = self.ranges.get(next_idx) {
-            if *range.start() > id {
+            if range.contains(&id) {
+                // not in use, nothing to return
+                return;
+            } else if *range.start() > id {
                 break;
             } else {
                 prev_idx = Some(next_idx);
-- 
2.43.0


From e177222a84a7570be39d78d08eb62abf26c2f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 14/16] fix: wait for a vacant packet id instead of panicking
 when all are in use

---
 src/lib.rs    | 10 +++++-----
 src/pktids.rs |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6939021..e5bec0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -250,7 +250,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next(), if clients_alive => {
+            cmd = commands_rx.next(), if clients_alive && pktids.has_vacant() => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -265,13 +265,13 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => unreachable!("commands are taken only while there is a vacant packet id"),
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => unreachable!("commands are taken only while there is a vacant packet id"),
                                     }
                                 }
                             };
@@ -280,14 +280,14 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => unreachable!("commands are taken only while there is a vacant packet id"),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => unreachable!("commands are taken only while there is a vacant packet id"),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
diff --git a/src/pktids.rs b/src/pktids.rs
index cf44618..6be8f38 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -77,6 +77,10 @@ impl PktIds {
         }
     }
 
+    pub(crate) fn has_vacant(&self) -> bool {
+        matches!(self.ranges.get(self.start), Some(Node::Taken { .. }))
+    }
+
     pub(crate) fn return_id(&mut self, id: PktId) {
         let id = id.get();
         let mut prev_idx = None;
-- 
2.43.0


From 54022e6947981a95250e5ce8ef15f13c5e24b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 15/16] fix: refuse arguments too long for the protocol instead
 of sending corrupt packets

---
 src/client.rs     | 53 +++++++++++++++++++++++++++++++++++++++++++++--
 src/mqtt_codec.rs |  2 +-
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..62125a7 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,9 @@
-use anyhow::{Context as AnyContext, Error};
+use anyhow::{ensure, Context as AnyContext, Error};
 use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
-use crate::protocol::{Connack, Property};
+use crate::protocol::{Connack, Property, ToMqttBytes};
 use crate::{Payload, QoS};
 
 use super::*;
@@ -58,18 +58,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_len("Topic", topic.len())?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_len("Topic", topic.len())?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -82,6 +85,17 @@ impl Client {
     }
 }
 
+// Strings and binary data are prefixed with their length as a two byte integer
+fn check_len(what: &str, len: usize) -> Result<(), Error> {
+    ensure!(
+        len <= u16::MAX as usize,
+        "{} is too long: {} bytes",
+        what,
+        len
+    );
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -122,6 +136,41 @@ impl PublishBuilder {
         self
     }
 
+    fn check(&self) -> Result<(), Error> {
+        check_len("Topic", self.topic.len())?;
+        for prop in &self.properties {
+            match prop {
+                Property::ResponseTopic(s) => check_len("Response topic", s.len())?,
+                Property::CorrelationData(b) => check_len("Correlation data", b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_len("User property name", k.len())?;
+                    check_len("User property value", v.len())?;
+                }
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+            }
+        }
+
+        let payload_len = match &self.payload {
+            Payload::Bytes(v) => v.len(),
+            Payload::String(s) => s.len(),
+        };
+        let pktid_len = match self.qos {
+            None | Some(QoS::AtMostOnce) => 0,
+            Some(_) => 2,
+        };
+        let len = 2
+            + self.topic.len()
+            + pktid_len
+            + self.properties.as_slice().convert_to_mqtt().len()
+            + payload_len;
+        ensure!(
+            len <= mqtt_codec::MAX as usize,
+            "Message is too long: {} bytes",
+            len
+        );
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0


From cacb9803656d855896c2f07e3f32bf061d02e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 16/16] fix: parse the properties of every disconnect that has
 any

---
 src/protocol/disconnect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7850b1c 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -176,7 +176,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0

