From 4331fd27681243f5f73de7cf46b4c3d5b40a8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 01/36] fix: value allocator reports out-of-range values as not
 used and ignores double release

---
 src/mqtt/common/value_allocator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..c367641 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -129,6 +129,11 @@ where
             .next_back()
             .cloned();
 
+        // Releasing a value that is already free changes nothing.
+        if right.as_ref().is_some_and(|r| r.contains(value)) {
+            return;
+        }
+
         match (left, right) {
             (Some(l), Some(r)) if l.high + T::one() == value && value + T::one() == r.low => {
                 self.pool.remove(&l);
@@ -167,7 +172,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 9e74c8615a8a1f71d40d8d38b9efff82bbd59e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 02/36] fix: discard a partially received packet when the
 transport is closed

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..620069c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -728,6 +728,9 @@ where
         self.maximum_packet_size_send = MQTT_PACKET_SIZE_NO_LIMIT;
         self.maximum_packet_size_recv = MQTT_PACKET_SIZE_NO_LIMIT;
 
+        // Discard a partially received packet
+        self.packet_builder = PacketBuilder::new();
+
         // Set status to disconnected
         self.status = ConnectionStatus::Disconnected;
 
-- 
2.43.0


From 6f68a15164430f3365cefa5496fe9d10c8d737e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 03/36] fix: keep-alive timeout and handled QoS 2 ids do not
 outlive their connection or session

---
 src/mqtt/connection/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 620069c..dfdf4cf 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1229,6 +1229,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
@@ -1236,6 +1237,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.qos2_publish_handled.clear();
         self.store.clear();
     }
 
-- 
2.43.0


From 81847dcf853ac881de80441e9429c54fb7498c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 04/36] fix: Topic Alias Maximum 0 in a received CONNECT no
 longer panics

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index dfdf4cf..4cafe16 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2620,7 +2620,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From a3b8b5f1edde8738c2ac7555a96255571458afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 05/36] fix: Receive Maximum accounting survives session resume
 without wrapping

---
 src/mqtt/connection/core.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4cafe16..a692ecb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1255,6 +1255,10 @@ where
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
             });
+            // A retransmitted packet counts against the peer's Receive Maximum
+            if self.publish_send_max.is_some() {
+                self.publish_send_count = self.publish_send_count.saturating_add(1);
+            }
             true // Keep in store
         });
 
@@ -1715,7 +1719,7 @@ where
         // Check receive_maximum for sending (QoS 1 and 2 packets)
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
+                if self.publish_send_count >= max {
                     events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
                     if let Some(packet_id) = packet_id_opt {
                         if self.pid_man.is_used_id(packet_id) {
@@ -3048,7 +3052,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3122,7 +3126,7 @@ where
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
                         if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
+                            self.publish_send_count = self.publish_send_count.saturating_sub(1);
                         }
                     }
                     events.extend(self.refresh_pingreq_recv());
@@ -3252,7 +3256,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
-- 
2.43.0


From fa85b4ddce20837a68de78e068144e9bdba745f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 06/36] fix: dropping an oversize stored packet also forgets
 its identifier

---
 src/mqtt/connection/core.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index a692ecb..b4145a6 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1247,8 +1247,13 @@ where
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
                 return false; // Remove from store
             }
             events.push(GenericEvent::RequestSendPacket {
-- 
2.43.0


From 863998575172d2dc08098e65e92b76ca9c99585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 07/36] fix: PUBREC with a non-error reason code continues the
 QoS 2 exchange

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b4145a6..208bf50 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3117,7 +3117,7 @@ where
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    if !reason_code.is_some_and(|rc| rc.is_failure()) {
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From caf0ef00abc88d691f9a4260938598a96a66b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 08/36] fix: CONNACK on an established connection is a protocol
 error

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 208bf50..038ce2c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2676,6 +2676,10 @@ where
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if self.status == ConnectionStatus::Connected {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
@@ -2704,6 +2708,10 @@ where
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if self.status == ConnectionStatus::Connected {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
-- 
2.43.0


From e90938b7dfe6f57a4fd056e8dd8b744b105f5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 09/36] fix: a PUBLISH accepted while not connected is always
 stored

---
 src/mqtt/connection/core.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 038ce2c..a929d6a 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1546,9 +1546,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1609,9 +1607,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
-- 
2.43.0


From 9fb7c1095b46b435416fdabfb198af6782213d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 10/36] fix: PUBREL queued while not connected is tracked and
 arms no timer

---
 src/mqtt/connection/core.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index a929d6a..d70c2e0 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1857,14 +1857,15 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
+
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1893,14 +1894,15 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
+
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
-- 
2.43.0


From 939fc7733f548bbec16866ed4741fa539f167761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 11/36] fix: identifier of a QoS 2 exchange awaiting PUBREL is
 released on close

---
 src/mqtt/connection/core.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d70c2e0..8cf6c63 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -152,6 +152,9 @@ where
     pid_pubrec: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
 
+    // PUBREC received, PUBREL not sent yet
+    pid_pubrel: HashSet<PacketIdType>,
+
     need_store: bool,
     // Store for retransmission packets
     store: GenericStore<PacketIdType>,
@@ -261,6 +264,7 @@ where
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
             pid_pubcomp: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
             offline_publish: false,
@@ -781,6 +785,13 @@ where
                     events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 }
             }
+
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
         }
 
         // Cancel all timers
@@ -1237,6 +1248,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.qos2_publish_handled.clear();
         self.store.clear();
     }
@@ -1857,6 +1869,7 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -1894,6 +1907,7 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -3090,6 +3104,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
@@ -3124,6 +3139,7 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if !reason_code.is_some_and(|rc| rc.is_failure()) {
+                        self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From f0ff2b34208867fd2a00731c236a106c806bc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 12/36] fix: exchanges awaiting PUBREL count against the
 Receive Maximum of the resumed connection

---
 src/mqtt/connection/core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8cf6c63..49e7545 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1278,6 +1278,12 @@ where
             }
             true // Keep in store
         });
+        // So does an exchange whose PUBREL has not been sent yet
+        if self.publish_send_max.is_some() {
+            for _ in &self.pid_pubrel {
+                self.publish_send_count = self.publish_send_count.saturating_add(1);
+            }
+        }
 
         events
     }
-- 
2.43.0


From 18c1cf4e9013e5c4d95ee0934bdcfb838e8224c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 13/36] fix: closing a non-persistent connection also empties
 the store

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 49e7545..3224c60 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -761,6 +761,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
-- 
2.43.0


From 2a80070acaf14fbd40f19c5ac3c908d677dff862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 14/36] fix: releasing an identifier forgets the exchange that
 owned it

---
 src/mqtt/connection/core.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3224c60..4f6986e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -981,6 +981,17 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        // Forget the exchange owning the identifier, a new one may take it over
+        self.pid_suback.remove(&packet_id);
+        self.pid_unsuback.remove(&packet_id);
+        let publishing = self.pid_puback.remove(&packet_id)
+            || self.pid_pubrec.remove(&packet_id)
+            || self.pid_pubcomp.remove(&packet_id)
+            || self.pid_pubrel.remove(&packet_id);
+        if publishing && self.publish_send_max.is_some() {
+            self.publish_send_count = self.publish_send_count.saturating_sub(1);
+        }
+
         if self.pid_man.is_used_id(packet_id) {
             self.pid_man.release_id(packet_id);
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-- 
2.43.0


From 6c32f21ab82b1829c3e31cdec9bffb0f3522105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 15/36] fix: a refused send always releases the packet
 identifier it carried

---
 src/mqtt/connection/core.rs | 41 +++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4f6986e..c6bd006 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -400,7 +400,16 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = match &packet {
+                GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+                GenericPacket::V5_0Publish(p) => p.packet_id(),
+                GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+                _ => None,
+            };
+            return self.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         match packet {
@@ -451,28 +460,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1265,6 +1274,22 @@ where
         self.store.clear();
     }
 
+    /// Refuse a packet passed to send and release the packet identifier it carries
+    fn refuse_send(
+        &mut self,
+        error: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(error)];
+        if let Some(packet_id) = packet_id {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+            }
+        }
+        events
+    }
+
     /// Send all stored packets for retransmission
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
@@ -1608,7 +1633,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -2017,7 +2042,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2123,7 +2148,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
-- 
2.43.0


From be7ff8e4cb5ac2e451214ed08b3bcc91fa6fe3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 16/36] fix: Receive Maximum is checked before a PUBLISH
 changes alias, store or counter

---
 src/mqtt/connection/core.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c6bd006..4522e70 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1653,7 +1653,6 @@ where
                 return events;
             }
 
-            // Extract topic_name from TopicAlias and remove TopicAlias property, then store it
             if !self.pid_man.is_used_id(packet_id) {
                 error!("packet_id {packet_id} must be acquired or registered");
                 events.push(GenericEvent::NotifyError(
@@ -1662,6 +1661,16 @@ where
                 return events;
             }
 
+            // Check receive_maximum for sending
+            if self.status == ConnectionStatus::Connected
+                && self
+                    .publish_send_max
+                    .is_some_and(|max| self.publish_send_count >= max)
+            {
+                return self.refuse_send(MqttError::ReceiveMaximumExceeded, Some(packet_id));
+            }
+
+            // Extract topic_name from TopicAlias and remove TopicAlias property, then store it
             if self.need_store || self.status != ConnectionStatus::Connected {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
@@ -1772,27 +1781,10 @@ where
             }
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.publish_send_count >= max {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
+        if self.status == ConnectionStatus::Connected {
+            if packet.qos() != Qos::AtMostOnce && self.publish_send_max.is_some() {
                 self.publish_send_count += 1;
             }
-        }
-
-        if self.status == ConnectionStatus::Connected {
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error,
-- 
2.43.0


From af4c480ca950697cd873a38a05752c62945ea71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 17/36] fix: a queued PUBLISH binds no topic alias

---
 src/mqtt/connection/core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4522e70..c8dd5a8 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1734,8 +1734,11 @@ where
                     packet.topic_name(),
                     ta
                 );
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                // A queued packet is sent later with its full topic name, it binds nothing
+                if self.status == ConnectionStatus::Connected {
+                    if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                        topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                    }
                 }
             } else {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-- 
2.43.0


From b2570ef9fcece3f0f1a6f495b257b9d5eb4c10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 18/36] fix: automatic topic alias never exceeds the peer's
 Maximum Packet Size

---
 src/mqtt/connection/core.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c8dd5a8..f0bda42 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1755,6 +1755,8 @@ where
             }
         } else if self.status == ConnectionStatus::Connected {
             // process auto applying TopicAlias if the option is enabled
+            // as long as the resulting packet is not too large for the peer
+            let size_limit = self.maximum_packet_size_send as usize;
             if self.auto_map_topic_alias_send {
                 if let Some(ref mut topic_alias_send) = self.topic_alias_send {
                     if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
@@ -1763,11 +1765,17 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= size_limit {
+                            packet = aliased;
+                        }
                     } else {
                         let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
+                        let aliased = packet.clone().add_topic_alias(lru_ta);
+                        if aliased.size() <= size_limit {
+                            topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                            packet = aliased;
+                        }
                     }
                 }
             } else if self.auto_replace_topic_alias_send {
@@ -1778,7 +1786,10 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= size_limit {
+                            packet = aliased;
+                        }
                     }
                 }
             }
-- 
2.43.0


From b15125678e5f689dee7e98c6c13860f6fdbaf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 19/36] fix: a packet received while disconnected arms no timer

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f0bda42..0dde79e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3704,7 +3704,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.status != ConnectionStatus::Disconnected && self.pingreq_recv_timeout_ms != 0 {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From af9d6c75fe1c01489aad25af2ca68801c44998f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 20/36] fix: a connection that cannot send its DISCONNECT is
 still closed

---
 src/mqtt/connection/core.rs | 47 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 0dde79e..2b90d1c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -679,12 +679,10 @@ where
                     Version::V5_0 => {
                         // V5.0: Send DISCONNECT with keep_alive_timeout if connected
                         if self.status == ConnectionStatus::Connected {
-                            if let Ok(disconnect) = v5_0::Disconnect::builder()
-                                .reason_code(DisconnectReasonCode::KeepAliveTimeout)
-                                .build()
-                            {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
-                            }
+                            self.disconnect_v5_0(
+                                DisconnectReasonCode::KeepAliveTimeout,
+                                &mut events,
+                            );
                         }
                     }
                     Version::Undetermined => {
@@ -704,12 +702,10 @@ where
                     Version::V5_0 => {
                         // V5.0: Send DISCONNECT with keep_alive_timeout if connected
                         if self.status == ConnectionStatus::Connected {
-                            if let Ok(disconnect) = v5_0::Disconnect::builder()
-                                .reason_code(DisconnectReasonCode::KeepAliveTimeout)
-                                .build()
-                            {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
-                            }
+                            self.disconnect_v5_0(
+                                DisconnectReasonCode::KeepAliveTimeout,
+                                &mut events,
+                            );
                         }
                     }
                     Version::Undetermined => {
@@ -2438,12 +2434,7 @@ where
             // If the packet size is over 268434555, feed() return an error.
             // maximum_packet_size_recv is set by sending CONNECT or CONNACK packet.
             // So DISCONNECT packet is the right choice to notify the error.
-            let disconnect_packet = v5_0::Disconnect::builder()
-                .reason_code(DisconnectReasonCode::PacketTooLarge)
-                .build()
-                .unwrap();
-            // Send disconnect packet directly without generic constraints
-            events.extend(self.process_send_v5_0_disconnect(disconnect_packet));
+            self.disconnect_v5_0(DisconnectReasonCode::PacketTooLarge, &mut events);
             events.push(GenericEvent::NotifyError(MqttError::PacketTooLarge));
             return events;
         }
@@ -3694,12 +3685,28 @@ where
     }
 
     fn handle_v5_0_error(&mut self, e: MqttError, events: &mut Vec<GenericEvent<PacketIdType>>) {
+        self.disconnect_v5_0(e.into(), events);
+        events.push(GenericEvent::NotifyError(e));
+    }
+
+    /// Disconnect with the reason, the transport is closed even if the peer's
+    /// Maximum Packet Size does not allow the DISCONNECT packet itself
+    fn disconnect_v5_0(
+        &mut self,
+        reason_code: DisconnectReasonCode,
+        events: &mut Vec<GenericEvent<PacketIdType>>,
+    ) {
         let disconnect = v5_0::Disconnect::builder()
-            .reason_code(e.into())
+            .reason_code(reason_code)
             .build()
             .unwrap();
+        let too_large = !self.validate_maximum_packet_size_send(disconnect.size());
         events.extend(self.process_send_v5_0_disconnect(disconnect));
-        events.push(GenericEvent::NotifyError(e));
+        if too_large && self.status == ConnectionStatus::Connected {
+            self.status = ConnectionStatus::Disconnected;
+            self.cancel_timers(events);
+            events.push(GenericEvent::RequestClose);
+        }
     }
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
-- 
2.43.0


From 565a60b8cc0a9082a0d40e1a087d52cffdef51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 21/36] fix: a duplicate PUBLISH does not count twice against
 the Receive Maximum

---
 src/mqtt/connection/core.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2b90d1c..3278f3f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2922,24 +2922,28 @@ where
                         let mut puback_send = false;
                         let mut pubrec_send = false;
 
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
+                        let mut check_receive_maximum = |packet_id: &PacketIdType,
+                                                         events: &mut Vec<
+                            GenericEvent<PacketIdType>,
+                        >| {
+                            if let Some(max) = self.publish_recv_max {
+                                if self.publish_recv.len() >= max as usize
+                                    && !self.publish_recv.contains(packet_id)
+                                {
+                                    self.handle_v5_0_error(
+                                        MqttError::ReceiveMaximumExceeded,
+                                        events,
+                                    );
+                                    return false;
                                 }
-                                true
-                            };
+                            }
+                            true
+                        };
 
                         match packet.qos() {
                             Qos::AtLeastOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(&packet_id, &mut events) {
                                     return events;
                                 }
                                 self.publish_recv.insert(packet_id);
@@ -2951,7 +2955,7 @@ where
                             }
                             Qos::ExactlyOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(&packet_id, &mut events) {
                                     return events;
                                 }
                                 self.publish_recv.insert(packet_id);
-- 
2.43.0


From 6eb5ebd8476aa70dd1a7f8a481fb3da69649de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 22/36] fix: a PUBLISH rejected for its topic alias is not
 recorded as received

---
 src/mqtt/connection/core.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3278f3f..d82e1d1 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2946,7 +2946,6 @@ where
                                 if !check_receive_maximum(&packet_id, &mut events) {
                                     return events;
                                 }
-                                self.publish_recv.insert(packet_id);
                                 if self.auto_pub_response
                                     && self.status == ConnectionStatus::Connected
                                 {
@@ -2958,9 +2957,7 @@ where
                                 if !check_receive_maximum(&packet_id, &mut events) {
                                     return events;
                                 }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
+                                if self.qos2_publish_handled.contains(&packet_id) {
                                     already_handled = true;
                                 }
                                 if self.status == ConnectionStatus::Connected
@@ -3035,6 +3032,14 @@ where
                             }
                         }
 
+                        // The packet is valid, track its packet ID
+                        if let Some(packet_id) = packet.packet_id() {
+                            self.publish_recv.insert(packet_id);
+                            if packet.qos() == Qos::ExactlyOnce {
+                                self.qos2_publish_handled.insert(packet_id);
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From 6864be43583162353fa320e9123fdcb0cc8b657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 23/36] fix: restoring a packet whose identifier is taken does
 not track it

---
 src/mqtt/connection/core.rs | 54 +++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d82e1d1..fee9ff0 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1041,23 +1041,20 @@ where
         for packet in packets {
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    if p.qos() == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if p.qos() == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1066,23 +1063,20 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    if p.qos() == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if p.qos() == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1091,11 +1085,11 @@ where
                     }
                 }
                 GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1104,11 +1098,11 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
-- 
2.43.0


From 9d0020464fb1fb2772c796bb7c4edbb649b6b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 24/36] fix: a server that reports no session present starts a
 new session

---
 src/mqtt/connection/core.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index fee9ff0..b0e4d87 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1470,6 +1470,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1482,7 +1483,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1502,6 +1507,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1557,7 +1563,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
-- 
2.43.0


From e5d8c61dcce1f3f61883dd31ce30c997c6e1e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 25/36] fix: parsers reject packet identifier 0

---
 src/mqtt/packet/v3_1_1/publish.rs     | 3 +++
 src/mqtt/packet/v3_1_1/suback.rs      | 3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs       | 3 +++
 src/mqtt/packet/v5_0/suback.rs        | 3 +++
 src/mqtt/packet/v5_0/subscribe.rs     | 3 +++
 src/mqtt/packet/v5_0/unsuback.rs      | 3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 +++
 10 files changed, 30 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..4627424 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -644,6 +644,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..67efb51 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..2750f56 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -983,6 +983,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..99d71cc 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From 18783182bf835323962ec3e274b8999f8f488cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 26/36] fix: PUBLISH parsers reject the topic names the
 builders reject

---
 src/mqtt/packet/v3_1_1/publish.rs |  6 ++++++
 src/mqtt/packet/v5_0/publish.rs   | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 4627424..79c32e0 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,12 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().is_empty()
+            || topic_name.as_str().contains('#')
+            || topic_name.as_str().contains('+')
+        {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 2750f56..785a912 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -995,10 +998,17 @@ where
         let (property_length, props) = if cursor < data_arc.len() {
             let (props, consumed) = Properties::parse(&data_arc[cursor..])?;
             cursor += consumed;
-            validate_publish_properties(&props)?;
+            let has_topic_alias =
+                validate_publish_properties(&props)? == PropertyValidation::ValidWithTopicAlias;
+            if topic_name.as_str().is_empty() && !has_topic_alias {
+                return Err(MqttError::TopicAliasInvalid);
+            }
             let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
             (prop_len, props)
         } else {
+            if topic_name.as_str().is_empty() {
+                return Err(MqttError::TopicAliasInvalid);
+            }
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
 
-- 
2.43.0


From bdfcc43a10b087df05f48aebc616e1aebdf1374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 27/36] fix: CONNECT parsers reject invalid connect flags

---
 src/mqtt/packet/v3_1_1/connect.rs | 13 +++++++++++++
 src/mqtt/packet/v5_0/connect.rs   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..88b89cd 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -559,6 +559,19 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        if connect_flags & 0b0000_0001 != 0 {
+            // Reserved bit must be 0
+            return Err(MqttError::MalformedPacket);
+        }
+        if connect_flags & 0b0000_0100 == 0 {
+            // Will QoS and Will Retain must be 0 without the Will Flag
+            if connect_flags & 0b0011_1000 != 0 {
+                return Err(MqttError::MalformedPacket);
+            }
+        } else if connect_flags & 0b0001_1000 == 0b0001_1000 {
+            // Will QoS must not be 3
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..9c74d23 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -589,6 +589,19 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        if connect_flags & 0b0000_0001 != 0 {
+            // Reserved bit must be 0
+            return Err(MqttError::MalformedPacket);
+        }
+        if connect_flags & 0b0000_0100 == 0 {
+            // Will QoS and Will Retain must be 0 without the Will Flag
+            if connect_flags & 0b0011_1000 != 0 {
+                return Err(MqttError::MalformedPacket);
+            }
+        } else if connect_flags & 0b0001_1000 == 0b0001_1000 {
+            // Will QoS must not be 3
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
-- 
2.43.0


From 75571524716e4d002ffacea1e2de540ee12d5fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 28/36] fix: CONNACK v5.0 parser rejects reserved acknowledge
 flags

---
 src/mqtt/packet/v5_0/connack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..7026d4c 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,6 +410,10 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
+        if flags & 0b1111_1110 != 0 {
+            // Reserved bits must be 0
+            return Err(MqttError::MalformedPacket);
+        }
         let _session = (flags & 0x01) != 0;
         let code = data[cursor];
         cursor += 1;
-- 
2.43.0


From e45ca5c41778cc7b118034d2bf959b2578342668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 29/36] fix: will_message() replaces the Will QoS and Will
 Retain of an earlier call

---
 src/mqtt/packet/v3_1_1/connect.rs | 1 +
 src/mqtt/packet/v5_0/connect.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 88b89cd..cccc162 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -801,6 +801,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= 0b1100_0111; // Reset Will QoS and Will retain
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 9c74d23..fb9fdfd 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -849,6 +849,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= 0b1100_0111; // Reset Will QoS and Will retain
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
-- 
2.43.0


From be0d1f24025263d9313cf61bd744c3c7af1e408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 30/36] fix: CONNECT builder rejects will properties without a
 will message

---
 src/mqtt/packet/v5_0/connect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index fb9fdfd..0aa95b7 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -1016,6 +1016,9 @@ impl ConnectBuilder {
 
         if let Some(ref will_props) = self.will_props {
             validate_will_properties(will_props)?;
+            if !will_props.is_empty() && !will_flag {
+                return Err(MqttError::ProtocolError);
+            }
         }
 
         Ok(())
-- 
2.43.0


From eb220cf67b82aa1cc3f36e260ddde0feb4a20a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 31/36] fix: decode_stream rejects non-minimal variable byte
 integers

---
 src/mqtt/packet/variable_byte_integer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..6926805 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -112,6 +112,9 @@ impl VariableByteInteger {
 
             if (b & 0x80) == 0 {
                 // complete
+                if b == 0 && i > 0 {
+                    return DecodeResult::Err("Not the minimum number of bytes");
+                }
                 return match Self::from_u32(value) {
                     Some(vbi) => DecodeResult::Ok(vbi, i + 1),
                     None => DecodeResult::Err("Encoding failure"),
-- 
2.43.0


From e944c3b508da556926fcabf0319336fdf3488bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 32/36] fix: v3.1.1 SUBSCRIBE rejects the reserved subscription
 option bits

---
 src/mqtt/packet/v3_1_1/subscribe.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index a440d7f..c7b77e1 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -325,6 +325,10 @@ where
         let mut entries = Vec::new();
         while cursor < data.len() {
             let (entry, consumed) = SubEntry::parse(&data[cursor..])?;
+            if entry.sub_opts().to_buffer()[0] & 0b1111_1100 != 0 {
+                // Bits other than the requested QoS are reserved in v3.1.1
+                return Err(MqttError::MalformedPacket);
+            }
             entries.push(entry);
             cursor += consumed;
         }
@@ -511,6 +515,15 @@ where
             return Err(MqttError::ProtocolError);
         }
 
+        if self.entries.as_ref().is_some_and(|entries| {
+            entries
+                .iter()
+                .any(|e| e.sub_opts().to_buffer()[0] & 0b1111_1100 != 0)
+        }) {
+            // Bits other than the requested QoS are reserved in v3.1.1
+            return Err(MqttError::MalformedPacket);
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 9fd3cfc187839b0015e97caba8a3aa5202a02f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 33/36] fix: parsers reject bodies longer than the largest
 Remaining Length instead of panicking

---
 src/mqtt/packet/v3_1_1/publish.rs     | 4 ++++
 src/mqtt/packet/v3_1_1/suback.rs      | 4 ++++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 4 ++++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 4 ++++
 src/mqtt/packet/v5_0/auth.rs          | 4 ++++
 src/mqtt/packet/v5_0/connack.rs       | 4 ++++
 src/mqtt/packet/v5_0/connect.rs       | 4 ++++
 src/mqtt/packet/v5_0/disconnect.rs    | 4 ++++
 src/mqtt/packet/v5_0/puback.rs        | 4 ++++
 src/mqtt/packet/v5_0/pubcomp.rs       | 4 ++++
 src/mqtt/packet/v5_0/publish.rs       | 4 ++++
 src/mqtt/packet/v5_0/pubrec.rs        | 4 ++++
 src/mqtt/packet/v5_0/pubrel.rs        | 4 ++++
 src/mqtt/packet/v5_0/suback.rs        | 4 ++++
 src/mqtt/packet/v5_0/subscribe.rs     | 4 ++++
 src/mqtt/packet/v5_0/unsuback.rs      | 4 ++++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 4 ++++
 17 files changed, 68 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 79c32e0..417e5a2 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -617,6 +617,10 @@ where
     /// }
     /// ```
     pub fn parse(flags: u8, data_arc: Arc<[u8]>) -> Result<(Self, usize), MqttError> {
+        if data_arc.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let fixed_header_byte = FixedHeader::Publish as u8 | (flags & 0b0000_1111);
 
         let qos_value = (flags >> 1) & 0b0000_0011;
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index bb81490..9a6fd9c 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -314,6 +314,10 @@ where
     /// assert_eq!(consumed, 3);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index c7b77e1..92d049c 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -308,6 +308,10 @@ where
     /// assert_eq!(consumed, data.len());
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index ee52a45..09299b7 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -323,6 +323,10 @@ where
     /// }
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v5_0/auth.rs b/src/mqtt/packet/v5_0/auth.rs
index 295762c..acae2fd 100644
--- a/src/mqtt/packet/v5_0/auth.rs
+++ b/src/mqtt/packet/v5_0/auth.rs
@@ -334,6 +334,10 @@ impl Auth {
     /// assert_eq!(consumed, 2);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // reason_code
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 7026d4c..07207ad 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -403,6 +403,10 @@ impl Connack {
     /// assert_eq!(consumed, 3);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         if data.len() < 3 {
             // ack_flags(1) + reason_code(1) + prop_length_bytes(at least 1)
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 0aa95b7..18432de 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -552,6 +552,10 @@ impl Connect {
     /// }
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // Protocol Name (should be "MQTT")
diff --git a/src/mqtt/packet/v5_0/disconnect.rs b/src/mqtt/packet/v5_0/disconnect.rs
index 5b1c870..3d0c7f4 100644
--- a/src/mqtt/packet/v5_0/disconnect.rs
+++ b/src/mqtt/packet/v5_0/disconnect.rs
@@ -392,6 +392,10 @@ impl Disconnect {
     /// assert_eq!(consumed, 0);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // reason_code
diff --git a/src/mqtt/packet/v5_0/puback.rs b/src/mqtt/packet/v5_0/puback.rs
index 05cf5e3..39fd4db 100644
--- a/src/mqtt/packet/v5_0/puback.rs
+++ b/src/mqtt/packet/v5_0/puback.rs
@@ -408,6 +408,10 @@ where
     /// assert_eq!(consumed, 2);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // packet_id
diff --git a/src/mqtt/packet/v5_0/pubcomp.rs b/src/mqtt/packet/v5_0/pubcomp.rs
index cd77e35..987d55d 100644
--- a/src/mqtt/packet/v5_0/pubcomp.rs
+++ b/src/mqtt/packet/v5_0/pubcomp.rs
@@ -416,6 +416,10 @@ where
     /// assert_eq!(consumed, 2);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // packet_id
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 785a912..5711800 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -956,6 +956,10 @@ where
     /// }
     /// ```
     pub fn parse(flags: u8, data_arc: Arc<[u8]>) -> Result<(Self, usize), MqttError> {
+        if data_arc.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let fixed_header_byte = FixedHeader::Publish as u8 | (flags & 0b0000_1111);
 
         let qos_value = (flags >> 1) & 0b0000_0011;
diff --git a/src/mqtt/packet/v5_0/pubrec.rs b/src/mqtt/packet/v5_0/pubrec.rs
index 41ac1d4..6342084 100644
--- a/src/mqtt/packet/v5_0/pubrec.rs
+++ b/src/mqtt/packet/v5_0/pubrec.rs
@@ -458,6 +458,10 @@ where
     /// assert_eq!(consumed, 2);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // packet_id
diff --git a/src/mqtt/packet/v5_0/pubrel.rs b/src/mqtt/packet/v5_0/pubrel.rs
index dbdd32c..af1f406 100644
--- a/src/mqtt/packet/v5_0/pubrel.rs
+++ b/src/mqtt/packet/v5_0/pubrel.rs
@@ -425,6 +425,10 @@ where
     /// }
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
 
         // packet_id
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 528e3d2..8bb5abc 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -358,6 +358,10 @@ where
     /// assert_eq!(consumed, 4);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 99d71cc..0075e01 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -328,6 +328,10 @@ where
     /// assert_eq!(consumed, data.len());
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c4ac22b..7e21537 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -353,6 +353,10 @@ where
     /// assert_eq!(consumed, 4);
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 20b1f5e..26856ac 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -339,6 +339,10 @@ where
     /// }
     /// ```
     pub fn parse(data: &[u8]) -> Result<(Self, usize), MqttError> {
+        if data.len() > VariableByteInteger::MAX as usize {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let mut cursor = 0;
         let buffer_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
 
-- 
2.43.0


From 864086d7b7cccf94de4d6e63f43c0b0f9b836aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 34/36] fix: v3.1.1 UNSUBACK builder uses the width of the
 packet identifier

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 67efb51..6dce656 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -443,7 +443,7 @@ where
     /// or an error if validation fails.
     ///
     /// The method automatically calculates the remaining length based on the packet identifier size.
-    /// For standard u16 packet IDs, the remaining length is always 2 bytes.
+    /// For standard u16 packet IDs, the remaining length is 2 bytes.
     ///
     /// # Returns
     ///
@@ -470,7 +470,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From cc317bfdb0be1a6ff6ba1754364e8534e9d0bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 35/36] fix: reject a repeated Subscription Identifier in
 SUBSCRIBE

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 0075e01..a6b719e 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -874,12 +874,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From cf1b60f79d77e0e8361948d42683a69694fa2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 36/36] fix: checked_send with a packet of the wrong version
 releases its packet identifier

---
 src/mqtt/connection/sendable.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..3fb5b4a 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -30,7 +30,6 @@ use crate::mqtt::connection::GenericEvent;
 use crate::mqtt::packet::kind::PacketKind;
 use crate::mqtt::packet::GenericPacket;
 use crate::mqtt::packet::IsPacketId;
-use crate::mqtt::result_code::MqttError;
 use alloc::vec::Vec;
 use core::fmt::Debug;
 
@@ -279,15 +278,17 @@ where
         + core::fmt::Display
         + Debug
         + PacketKind
-        + SendableHelper<Role, PacketIdType>,
+        + SendableHelper<Role, PacketIdType>
+        + Into<GenericPacket<PacketIdType>>,
 {
     fn dispatch_send(
         self,
         connection: &mut GenericConnection<Role, PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
-        // Version check first
+        // Version check first. The run-time send refuses the packet and
+        // releases the packet identifier it carries
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return connection.send(self.into());
         }
 
         trace!("Static dispatch sent: {}", self);
-- 
2.43.0

