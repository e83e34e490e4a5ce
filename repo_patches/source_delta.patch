From aa218b7f247446fd937624227f412e904bd14df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 01/25] broker: add verif-hooks feature with a read-only state
 snapshot

---
 broker/Cargo.toml                    |   1 +
 broker/src/broker.rs                 |  10 +
 broker/src/broker/channel.rs         |   8 +
 broker/src/broker/handle.rs          |  16 +-
 broker/src/broker/service.rs         |  25 +++
 broker/src/broker/verif.rs           | 273 +++++++++++++++++++++++++++
 broker/src/conn/event.rs             |   7 +-
 broker/src/introspection_database.rs |   2 +-
 broker/src/lib.rs                    |   3 +
 broker/src/serial_map.rs             |   5 +
 10 files changed, 347 insertions(+), 3 deletions(-)
 create mode 100644 broker/src/broker/verif.rs

diff --git a/broker/Cargo.toml b/broker/Cargo.toml
index 74dccaf..2c2c0ea 100644
--- a/broker/Cargo.toml
+++ b/broker/Cargo.toml
@@ -28,6 +28,7 @@ introspection = [
 serde = ["aldrin-core/serde"]
 statistics = []
 tokio = ["aldrin-core/tokio"]
+verif-hooks = []
 
 [lints]
 workspace = true
diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..1177674 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -9,6 +9,8 @@ mod state;
 mod statistics;
 #[cfg(test)]
 mod test;
+#[cfg(feature = "verif-hooks")]
+mod verif;
 
 use crate::bus_listener::BusListener;
 use crate::conn::ConnectionEvent;
@@ -60,6 +62,9 @@ pub use error::BrokerShutdown;
 pub use handle::BrokerHandle;
 #[cfg(feature = "statistics")]
 pub use statistics::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub use verif::VerifSnapshot;
 
 const FIFO_SIZE: usize = 32;
 
@@ -263,6 +268,11 @@ impl Broker {
             ConnectionEvent::TakeStatistics(sender) => {
                 let _ = sender.send(self.statistics.take());
             }
+
+            #[cfg(feature = "verif-hooks")]
+            ConnectionEvent::VerifSnapshot(sender) => {
+                let _ = sender.send(self.verif_snapshot());
+            }
         }
     }
 
diff --git a/broker/src/broker/channel.rs b/broker/src/broker/channel.rs
index d5d1cc4..4812acf 100644
--- a/broker/src/broker/channel.rs
+++ b/broker/src/broker/channel.rs
@@ -26,6 +26,14 @@ impl Channel {
         }
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_owners(&self) -> [Option<&ConnectionId>; 2] {
+        [&self.sender, &self.receiver].map(|end| match end {
+            ChannelEndState::Claimed { owner, .. } => Some(owner),
+            ChannelEndState::Unclaimed | ChannelEndState::Closed => None,
+        })
+    }
+
     pub(crate) fn check_close(
         &self,
         conn_id: &ConnectionId,
diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index 84db3be..6e6cada 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -1,4 +1,6 @@
 use super::BrokerShutdown;
+#[cfg(feature = "verif-hooks")]
+use super::VerifSnapshot;
 use crate::conn::ConnectionEvent;
 use crate::conn_id::ConnectionIdManager;
 #[cfg(feature = "statistics")]
@@ -7,7 +9,7 @@ use crate::{AcceptError, Acceptor, Connection, ConnectionHandle};
 use aldrin_core::transport::{AsyncTransport, Buffered};
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 use futures_util::sink::SinkExt;
 
@@ -232,4 +234,16 @@ impl BrokerHandle {
             .map_err(|_| BrokerShutdown)?;
         recv.await.map_err(|_| BrokerShutdown)
     }
+
+    /// Takes a read-only snapshot of the broker's internal state.
+    #[cfg(feature = "verif-hooks")]
+    #[doc(hidden)]
+    pub async fn verif_snapshot(&mut self) -> Result<VerifSnapshot, BrokerShutdown> {
+        let (send, recv) = oneshot::channel();
+        self.send
+            .send(ConnectionEvent::VerifSnapshot(send))
+            .await
+            .map_err(|_| BrokerShutdown)?;
+        recv.await.map_err(|_| BrokerShutdown)
+    }
 }
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index 456932e..f7e6dc8 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -107,6 +107,31 @@ impl Service {
         self.subscriptions.remove(conn_id);
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_events(&self) -> impl Iterator<Item = (u32, &ConnectionId)> {
+        self.events
+            .iter()
+            .flat_map(|(&event, conns)| conns.iter().map(move |conn| (event, conn)))
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_empty_events(&self) -> usize {
+        self.events
+            .values()
+            .filter(|conns| conns.is_empty())
+            .count()
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_all_events(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.all_events.iter()
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_subscriptions(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.subscriptions.iter()
+    }
+
     pub(crate) fn subscribed_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
         #[allow(clippy::mutable_key_type)]
         let mut res = HashSet::new();
diff --git a/broker/src/broker/verif.rs b/broker/src/broker/verif.rs
new file mode 100644
index 0000000..be22e28
--- /dev/null
+++ b/broker/src/broker/verif.rs
@@ -0,0 +1,273 @@
+use super::Broker;
+use crate::conn_id::ConnectionId;
+
+/// Read-only snapshot of the broker's internal state.
+///
+/// `events`, `all_events` and `subscriptions` count the subscriptions of live services. Every entry
+/// of `inconsistencies` describes a cross-reference that does not match its counterpart.
+#[derive(Debug, Clone)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub struct VerifSnapshot {
+    pub conns: usize,
+    pub obj_uuids: usize,
+    pub objs: usize,
+    pub svc_uuids: usize,
+    pub svcs: usize,
+    pub function_calls: usize,
+    pub aborted_calls: usize,
+    pub conn_calls: usize,
+    pub channels: usize,
+    pub bus_listeners: usize,
+    pub events: usize,
+    pub all_events: usize,
+    pub subscriptions: usize,
+    pub introspection: usize,
+    pub query_introspection: usize,
+    pub inconsistencies: Vec<String>,
+}
+
+impl Broker {
+    pub(super) fn verif_snapshot(&self) -> VerifSnapshot {
+        let mut bad = Vec::new();
+
+        let mut check = |cond: bool, what: &str| {
+            if !cond {
+                bad.push(what.to_owned());
+            }
+        };
+
+        let live = |id: &ConnectionId| self.conns.contains_key(id);
+
+        for (&cookie, uuid) in &self.obj_uuids {
+            let obj = self.objs.get(uuid);
+            check(obj.map(|o| o.cookie()) == Some(cookie), "obj_uuids -> objs");
+        }
+
+        for (uuid, obj) in &self.objs {
+            check(
+                self.obj_uuids.get(&obj.cookie()) == Some(uuid),
+                "objs -> obj_uuids",
+            );
+
+            check(
+                self.conns
+                    .get(obj.conn_id())
+                    .is_some_and(|c| c.objects().any(|o| o == obj.cookie())),
+                "objs -> conns",
+            );
+
+            for svc in obj.services() {
+                check(
+                    self.svc_uuids
+                        .get(&svc)
+                        .is_some_and(|(id, _, _)| id.cookie == obj.cookie()),
+                    "objs.svcs -> svc_uuids",
+                );
+            }
+        }
+
+        for (&cookie, (obj_id, svc_uuid, _)) in &self.svc_uuids {
+            check(
+                self.svcs
+                    .get(&(obj_id.uuid, *svc_uuid))
+                    .is_some_and(|s| s.cookie() == cookie && s.object_cookie() == obj_id.cookie),
+                "svc_uuids -> svcs",
+            );
+
+            check(
+                self.objs.get(&obj_id.uuid).is_some_and(|o| {
+                    o.cookie() == obj_id.cookie && o.services().any(|s| s == cookie)
+                }),
+                "svc_uuids -> objs",
+            );
+        }
+
+        let mut events = 0;
+        let mut all_events = 0;
+        let mut subscriptions = 0;
+
+        for svc in self.svcs.values() {
+            check(
+                self.svc_uuids.contains_key(&svc.cookie()),
+                "svcs -> svc_uuids",
+            );
+            check(svc.verif_empty_events() == 0, "svcs.events empty");
+
+            for serial in svc.function_calls() {
+                check(
+                    self.function_calls.iter().any(|(s, _)| s == serial),
+                    "svcs -> function_calls",
+                );
+            }
+
+            for (event, conn) in svc.verif_events() {
+                events += 1;
+                check(
+                    self.conns.get(conn).is_some_and(|c| {
+                        c.event_subscriptions().any(|s| s == (svc.cookie(), event))
+                    }),
+                    "svcs.events -> conns",
+                );
+            }
+
+            for conn in svc.verif_all_events() {
+                all_events += 1;
+                check(
+                    self.conns
+                        .get(conn)
+                        .is_some_and(|c| c.all_event_subscriptions().any(|s| s == svc.cookie())),
+                    "svcs.all_events -> conns",
+                );
+            }
+
+            for conn in svc.verif_subscriptions() {
+                subscriptions += 1;
+                check(
+                    self.conns
+                        .get(conn)
+                        .is_some_and(|c| c.subscriptions().any(|s| s == svc.cookie())),
+                    "svcs.subscriptions -> conns",
+                );
+            }
+        }
+
+        let mut aborted_calls = 0;
+
+        for (serial, call) in self.function_calls.iter() {
+            check(
+                self.svcs
+                    .get(&(call.callee_obj, call.callee_svc))
+                    .is_some_and(|s| s.function_calls().any(|s| s == serial)),
+                "function_calls -> svcs",
+            );
+
+            if call.aborted {
+                aborted_calls += 1;
+            } else {
+                check(
+                    self.conns
+                        .get(&call.caller_conn_id)
+                        .is_some_and(|c| c.calls().any(|(s, _)| s == serial)),
+                    "function_calls -> conns",
+                );
+            }
+        }
+
+        for (cookie, channel) in &self.channels {
+            let [sender, receiver] = channel.verif_owners();
+            check(
+                sender.is_some() || receiver.is_some(),
+                "channel without owner",
+            );
+
+            if let Some(sender) = sender {
+                check(
+                    self.conns
+                        .get(sender)
+                        .is_some_and(|c| c.senders().any(|s| s == *cookie)),
+                    "channels -> senders",
+                );
+            }
+
+            if let Some(receiver) = receiver {
+                check(
+                    self.conns
+                        .get(receiver)
+                        .is_some_and(|c| c.receivers().any(|r| r == *cookie)),
+                    "channels -> receivers",
+                );
+            }
+        }
+
+        for (cookie, bus_listener) in &self.bus_listeners {
+            check(
+                self.conns
+                    .get(bus_listener.conn_id())
+                    .is_some_and(|c| c.bus_listeners().any(|b| b == *cookie)),
+                "bus_listeners -> conns",
+            );
+        }
+
+        let mut conn_calls = 0;
+
+        for (id, conn) in &self.conns {
+            for cookie in conn.objects() {
+                check(
+                    self.obj_uuids
+                        .get(&cookie)
+                        .and_then(|uuid| self.objs.get(uuid))
+                        .is_some_and(|o| o.conn_id() == id),
+                    "conns -> objs",
+                );
+            }
+
+            for (serial, callee) in conn.calls() {
+                conn_calls += 1;
+                check(live(callee), "conns.calls -> callee");
+                check(
+                    self.function_calls
+                        .iter()
+                        .any(|(s, call)| s == serial && !call.aborted),
+                    "conns.calls -> function_calls",
+                );
+            }
+
+            for (svc, event) in conn.event_subscriptions() {
+                check(
+                    self.svc_uuids
+                        .get(&svc)
+                        .and_then(|(obj, uuid, _)| self.svcs.get(&(obj.uuid, *uuid)))
+                        .is_some_and(|s| s.verif_events().any(|(e, c)| e == event && c == id)),
+                    "conns.events -> svcs",
+                );
+            }
+
+            for svc in conn.subscriptions() {
+                check(
+                    self.svc_uuids
+                        .get(&svc)
+                        .and_then(|(obj, uuid, _)| self.svcs.get(&(obj.uuid, *uuid)))
+                        .is_some_and(|s| s.verif_subscriptions().any(|c| c == id)),
+                    "conns.subscriptions -> svcs",
+                );
+            }
+
+            for cookie in conn.senders().chain(conn.receivers()) {
+                check(self.channels.contains_key(&cookie), "conns -> channels");
+            }
+
+            for cookie in conn.bus_listeners() {
+                check(
+                    self.bus_listeners.contains_key(&cookie),
+                    "conns -> bus_listeners",
+                );
+            }
+        }
+
+        VerifSnapshot {
+            conns: self.conns.len(),
+            obj_uuids: self.obj_uuids.len(),
+            objs: self.objs.len(),
+            svc_uuids: self.svc_uuids.len(),
+            svcs: self.svcs.len(),
+            function_calls: self.function_calls.iter().count(),
+            aborted_calls,
+            conn_calls,
+            channels: self.channels.len(),
+            bus_listeners: self.bus_listeners.len(),
+            events,
+            all_events,
+            subscriptions,
+            #[cfg(feature = "introspection")]
+            introspection: self.introspection.len(),
+            #[cfg(not(feature = "introspection"))]
+            introspection: 0,
+            #[cfg(feature = "introspection")]
+            query_introspection: self.query_introspection.iter().count(),
+            #[cfg(not(feature = "introspection"))]
+            query_introspection: 0,
+            inconsistencies: bad,
+        }
+    }
+}
diff --git a/broker/src/conn/event.rs b/broker/src/conn/event.rs
index e165d88..cbb87ba 100644
--- a/broker/src/conn/event.rs
+++ b/broker/src/conn/event.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "verif-hooks")]
+use crate::broker::VerifSnapshot;
 use crate::conn_id::ConnectionId;
 use crate::versioned_message::VersionedMessage;
 #[cfg(feature = "statistics")]
@@ -5,7 +7,7 @@ use crate::BrokerStatistics;
 use aldrin_core::message::Message;
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 
 #[derive(Debug)]
@@ -27,4 +29,7 @@ pub(crate) enum ConnectionEvent {
 
     #[cfg(feature = "statistics")]
     TakeStatistics(oneshot::Sender<BrokerStatistics>),
+
+    #[cfg(feature = "verif-hooks")]
+    VerifSnapshot(oneshot::Sender<VerifSnapshot>),
 }
diff --git a/broker/src/introspection_database.rs b/broker/src/introspection_database.rs
index d586fef..17c2726 100644
--- a/broker/src/introspection_database.rs
+++ b/broker/src/introspection_database.rs
@@ -18,7 +18,7 @@ impl IntrospectionDatabase {
         }
     }
 
-    #[cfg(feature = "statistics")]
+    #[cfg(any(feature = "statistics", feature = "verif-hooks"))]
     pub(crate) fn len(&self) -> usize {
         self.entries.len()
     }
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index b4d9db1..4a56190 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -66,5 +66,8 @@ pub use acceptor::{AcceptError, Acceptor};
 pub use aldrin_core as core;
 #[cfg(feature = "statistics")]
 pub use broker::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub use broker::VerifSnapshot;
 pub use broker::{Broker, BrokerHandle, BrokerShutdown};
 pub use conn::{Connection, ConnectionError, ConnectionHandle};
diff --git a/broker/src/serial_map.rs b/broker/src/serial_map.rs
index 5689689..0884f45 100644
--- a/broker/src/serial_map.rs
+++ b/broker/src/serial_map.rs
@@ -34,6 +34,11 @@ impl<T> SerialMap<T> {
         self.elems.remove(&serial)
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn iter(&self) -> impl Iterator<Item = (u32, &T)> {
+        self.elems.iter().map(|(&serial, elem)| (serial, elem))
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.elems.is_empty()
     }
-- 
2.43.0


From d8e06ebf583142513610d0ee275372cd52ba3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 02/25] fix: broker: count a channel even if the reply to its
 creator can't be sent

create_channel() stored the channel first, then sent the reply and incremented
num_channels only if that succeeded. Removal of the connection that created
the channel decremented num_channels in any case.
---
 broker/src/broker.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 1177674..a77d5ae 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1055,6 +1055,11 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
+        #[cfg(feature = "statistics")]
+        {
+            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
+        }
+
         send!(
             self,
             conn,
@@ -1062,14 +1067,7 @@ impl Broker {
                 serial: req.serial,
                 cookie,
             },
-        )?;
-
-        #[cfg(feature = "statistics")]
-        {
-            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-        }
-
-        Ok(())
+        )
     }
 
     fn close_channel_end(
-- 
2.43.0


From fca825b02a16176a3d1c3ca8b7233d8107b8c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 03/25] fix: core: skip all bytes of varint keys in maps and
 sets

---
 core/src/tags/key_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..db605be 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -132,7 +132,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +162,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +192,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +222,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +252,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +282,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From 0f6dd4e11165a173d88e05237b2069bbebca0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 04/25] fix: core: packetizer: never hand out an empty slice

When the length of the next frame was known and the buffer was filled up
to its capacity, spare_capacity_mut returned an empty slice (and failed a
debug assertion).
---
 core/src/message/packetizer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..5ebed1b 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -30,14 +30,18 @@ impl Packetizer {
     ///
     /// The slice returned by this function is guaranteed to be non-empty.
     pub fn spare_capacity_mut(&mut self) -> &mut [MaybeUninit<u8>] {
-        if let Some(len) = self.len {
-            if self.buf.capacity() < len {
+        match self.len {
+            Some(len) if self.buf.capacity() < len => {
                 let reserve =
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
-            self.buf.reserve(MIN_RESERVE_CAPACITY);
+
+            _ => {
+                if self.buf.capacity() == self.buf.len() {
+                    self.buf.reserve(MIN_RESERVE_CAPACITY);
+                }
+            }
         }
 
         let slice = self.buf.spare_capacity_mut();
-- 
2.43.0


From bc42c11bead4f4f3496e135b0bc79596e4a41661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 05/25] aldrin: add verif-hooks feature to observe the requests
 a client handles

---
 aldrin/Cargo.toml    |  1 +
 aldrin/src/client.rs |  3 +++
 aldrin/src/lib.rs    |  4 ++++
 aldrin/src/verif.rs  | 27 +++++++++++++++++++++++++++
 4 files changed, 35 insertions(+)
 create mode 100644 aldrin/src/verif.rs

diff --git a/aldrin/Cargo.toml b/aldrin/Cargo.toml
index 5237dd8..a4badba 100644
--- a/aldrin/Cargo.toml
+++ b/aldrin/Cargo.toml
@@ -31,6 +31,7 @@ serde = [
 ]
 sink = ["dep:futures-sink"]
 tokio = ["aldrin-core/tokio"]
+verif-hooks = []
 
 [lints]
 workspace = true
diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index c3e44f9..66f3d64 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -1173,6 +1173,9 @@ where
     }
 
     async fn handle_request(&mut self, req: HandleRequest) -> Result<(), RunError<T::Error>> {
+        #[cfg(feature = "verif-hooks")]
+        crate::verif::note_request(&req);
+
         match req {
             HandleRequest::HandleCloned => self.req_handle_cloned(),
             HandleRequest::HandleDropped => self.req_handle_dropped(),
diff --git a/aldrin/src/lib.rs b/aldrin/src/lib.rs
index 2769a2c..e5b9297 100644
--- a/aldrin/src/lib.rs
+++ b/aldrin/src/lib.rs
@@ -78,6 +78,8 @@ mod serial_map;
 mod test;
 mod unknown_call;
 mod unknown_event;
+#[cfg(feature = "verif-hooks")]
+mod verif;
 
 pub mod discoverer;
 pub mod error;
@@ -119,3 +121,5 @@ pub use property::Property;
 pub use reply::Reply;
 pub use unknown_call::UnknownCall;
 pub use unknown_event::UnknownEvent;
+#[cfg(feature = "verif-hooks")]
+pub use verif::observe_requests;
diff --git a/aldrin/src/verif.rs b/aldrin/src/verif.rs
new file mode 100644
index 0000000..1092d23
--- /dev/null
+++ b/aldrin/src/verif.rs
@@ -0,0 +1,27 @@
+//! Observation of the requests a client takes from its handles (for verification only).
+
+use crate::handle::request::HandleRequest;
+use std::cell::RefCell;
+
+type Observer = Box<dyn FnMut(&str)>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
+}
+
+/// Calls `f` on this thread with the kind of every request right before a client handles it.
+pub fn observe_requests(f: impl FnMut(&str) + 'static) {
+    OBSERVER.with(|o| *o.borrow_mut() = Some(Box::new(f)));
+}
+
+pub(crate) fn note_request(req: &HandleRequest) {
+    OBSERVER.with(|o| {
+        if let Some(f) = o.borrow_mut().as_mut() {
+            let text = format!("{req:?}");
+            let end = text
+                .find(|c: char| !c.is_alphanumeric())
+                .unwrap_or(text.len());
+            f(&text[..end]);
+        }
+    });
+}
-- 
2.43.0


From 83cea6d9847f42fc97f922add7df11ff518ae5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 06/25] fix: aldrin: only drop a channel end's state if closing
 it succeeded

A failed claim tried to close the channel end when it was dropped, although
it had never been owned, and the client then ran into a debug assertion (or,
if the same client owns that end, lost it). The reverse, closing an end
claimed through another handle of the same client, left stale state behind.
---
 aldrin/src/client.rs                      | 28 ++++++++++-------------
 aldrin/src/handle.rs                      |  2 --
 aldrin/src/handle/request.rs              |  1 -
 aldrin/src/low_level/channel/raw.rs       |  6 ++++-
 aldrin/src/low_level/channel/unclaimed.rs | 25 ++++++++++++++------
 5 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 66f3d64..f318ce9 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -586,22 +586,21 @@ where
             return Err(RunError::UnexpectedMessageReceived(msg.into()));
         };
 
-        if req.claimed {
-            match req.end {
-                ChannelEnd::Sender => {
-                    let contained = self.senders.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
-                }
+        let res = match msg.result {
+            CloseChannelEndResult::Ok => {
+                // The end is unknown here if it has never been claimed by this client.
+                match req.end {
+                    ChannelEnd::Sender => {
+                        self.senders.remove(&req.cookie);
+                    }
 
-                ChannelEnd::Receiver => {
-                    let contained = self.receivers.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
+                    ChannelEnd::Receiver => {
+                        self.receivers.remove(&req.cookie);
+                    }
                 }
-            }
-        }
 
-        let res = match msg.result {
-            CloseChannelEndResult::Ok => Ok(()),
+                Ok(())
+            }
 
             CloseChannelEndResult::InvalidChannel | CloseChannelEndResult::ForeignChannel => {
                 Err(Error::InvalidChannel)
@@ -1451,8 +1450,6 @@ where
     }
 
     async fn req_send_item(&mut self, req: SendItemRequest) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.senders.contains_key(&req.cookie));
-
         let msg = SendItem {
             cookie: req.cookie,
             value: req.value,
@@ -1465,7 +1462,6 @@ where
         &mut self,
         req: AddChannelCapacity,
     ) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.receivers.contains_key(&req.cookie));
         send!(self, req)
     }
 
diff --git a/aldrin/src/handle.rs b/aldrin/src/handle.rs
index 7cc3a7a..b161e3e 100644
--- a/aldrin/src/handle.rs
+++ b/aldrin/src/handle.rs
@@ -321,14 +321,12 @@ impl Handle {
         &self,
         cookie: ChannelCookie,
         end: ChannelEnd,
-        claimed: bool,
     ) -> Result<CloseChannelEndFuture, Error> {
         let (reply, recv) = oneshot::channel();
         self.send
             .unbounded_send(HandleRequest::CloseChannelEnd(CloseChannelEndRequest {
                 cookie,
                 end,
-                claimed,
                 reply,
             }))
             .map_err(|_| Error::Shutdown)?;
diff --git a/aldrin/src/handle/request.rs b/aldrin/src/handle/request.rs
index 2891407..61edf09 100644
--- a/aldrin/src/handle/request.rs
+++ b/aldrin/src/handle/request.rs
@@ -126,7 +126,6 @@ pub(crate) struct CreateClaimedReceiverRequest {
 pub(crate) struct CloseChannelEndRequest {
     pub cookie: ChannelCookie,
     pub end: ChannelEnd,
-    pub claimed: bool,
     pub reply: oneshot::Sender<Result<(), Error>>,
 }
 
diff --git a/aldrin/src/low_level/channel/raw.rs b/aldrin/src/low_level/channel/raw.rs
index cc832ab..af534ab 100644
--- a/aldrin/src/low_level/channel/raw.rs
+++ b/aldrin/src/low_level/channel/raw.rs
@@ -76,9 +76,13 @@ impl<const SENDER: bool> RawChannel<SENDER> {
         self.claimed = true;
     }
 
+    pub(crate) fn set_closed(&mut self) {
+        self.state = State::Closed;
+    }
+
     fn begin_close(&mut self) -> Result<CloseChannelEndFuture, Error> {
         self.client
-            .close_channel_end(self.cookie, Self::channel_end(), self.claimed)
+            .close_channel_end(self.cookie, Self::channel_end())
     }
 
     const fn channel_end() -> ChannelEnd {
diff --git a/aldrin/src/low_level/channel/unclaimed.rs b/aldrin/src/low_level/channel/unclaimed.rs
index a4755f5..ed70750 100644
--- a/aldrin/src/low_level/channel/unclaimed.rs
+++ b/aldrin/src/low_level/channel/unclaimed.rs
@@ -116,8 +116,16 @@ impl UnclaimedSender {
     /// ```
     pub async fn claim(mut self) -> Result<Sender, Error> {
         self.inner.set_claimed();
-        let (capacity_added, capacity) = self.client().claim_sender(self.cookie()).await?;
-        Ok(Sender::new(self.inner, capacity_added, capacity))
+
+        match self.client().claim_sender(self.cookie()).await {
+            Ok((capacity_added, capacity)) => Ok(Sender::new(self.inner, capacity_added, capacity)),
+
+            Err(e) => {
+                // This channel end isn't ours to close.
+                self.inner.set_closed();
+                Err(e)
+            }
+        }
     }
 }
 
@@ -235,11 +243,14 @@ impl UnclaimedReceiver {
     pub async fn claim(mut self, capacity: u32) -> Result<Receiver, Error> {
         self.inner.set_claimed();
 
-        let (items, max_capacity) = self
-            .client()
-            .claim_receiver(self.cookie(), capacity)
-            .await?;
+        match self.client().claim_receiver(self.cookie(), capacity).await {
+            Ok((items, max_capacity)) => Ok(Receiver::new(self.inner, items, max_capacity)),
 
-        Ok(Receiver::new(self.inner, items, max_capacity))
+            Err(e) => {
+                // This channel end isn't ours to close.
+                self.inner.set_closed();
+                Err(e)
+            }
+        }
     }
 }
-- 
2.43.0


From 8945d945fe9df46f8326b9ef084920e3519d25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 07/25] fix: aldrin: don't underflow the pending counters of
 bus listeners

Events of a start() or stop() that has been canceled, or that precede
destroy(), are still delivered but not counted.
---
 aldrin/src/bus_listener.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 3d803aa..f8e7aca 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -397,14 +397,16 @@ impl BusListener {
             }
 
             match Pin::new(&mut self.events).poll_next(cx) {
+                // The pending counters don't include calls to start() and stop() that have been
+                // canceled, but the resulting events are delivered nevertheless.
                 Poll::Ready(Some(BusListenerEvent::Started(scope))) => {
                     self.scope = Some(scope);
-                    self.pending_started -= 1;
+                    self.pending_started = self.pending_started.saturating_sub(1);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Stopped)) => {
                     self.scope = None;
-                    self.pending_stopped -= 1;
+                    self.pending_stopped = self.pending_stopped.saturating_sub(1);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Event(event))) => {
@@ -412,7 +414,7 @@ impl BusListener {
                 }
 
                 Poll::Ready(Some(BusListenerEvent::CurrentFinished)) => {
-                    self.pending_current_finished -= 1;
+                    self.pending_current_finished = self.pending_current_finished.saturating_sub(1);
                 }
 
                 Poll::Ready(None) => break Poll::Ready(None),
-- 
2.43.0


From b946b844b0ca448199f4739828a84215da2c8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 08/25] aldrin: verif-hooks: observe when a client stops
 handling requests

---
 aldrin/src/client.rs |  3 +++
 aldrin/src/verif.rs  | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index f318ce9..f118ffb 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -285,6 +285,9 @@ where
             }
         };
 
+        #[cfg(feature = "verif-hooks")]
+        crate::verif::note_drain();
+
         send!(self, Shutdown)?;
         self.drain_transport(wait_for_shutdown).await?;
         Ok(())
diff --git a/aldrin/src/verif.rs b/aldrin/src/verif.rs
index 1092d23..52be824 100644
--- a/aldrin/src/verif.rs
+++ b/aldrin/src/verif.rs
@@ -9,7 +9,8 @@ thread_local! {
     static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
 }
 
-/// Calls `f` on this thread with the kind of every request right before a client handles it.
+/// Calls `f` on this thread with the kind of every request right before a client handles it, and
+/// with "Drain" when a client stops handling requests.
 pub fn observe_requests(f: impl FnMut(&str) + 'static) {
     OBSERVER.with(|o| *o.borrow_mut() = Some(Box::new(f)));
 }
@@ -25,3 +26,11 @@ pub(crate) fn note_request(req: &HandleRequest) {
         }
     });
 }
+
+pub(crate) fn note_drain() {
+    OBSERVER.with(|o| {
+        if let Some(f) = o.borrow_mut().as_mut() {
+            f("Drain");
+        }
+    });
+}
-- 
2.43.0


From 75c4b014c1cb4cda6a6759f03eebe4667e06c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 09/25] fix: aldrin: don't spin on aborted calls while shutting
 down

---
 aldrin/src/client.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index f118ffb..8a09e39 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -317,9 +317,10 @@ where
                     return Err(RunError::Transport(e))
                 }
 
-                Selected::Transport(Ok(_))
-                | Selected::Handle(_)
-                | Selected::AbortFunctionCall(_) => {}
+                // Without marking the call as aborted, it would be selected over and over again.
+                Selected::AbortFunctionCall(serial) => self.function_calls.abort(serial),
+
+                Selected::Transport(Ok(_)) | Selected::Handle(_) => {}
             }
         }
 
-- 
2.43.0


From 6996d151d07a4f340eea1e889c9823970cf7eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 10/25] fix: broker: tell clients about a shutdown that races
 with their messages

---
 broker/src/conn.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..6523de1 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -112,7 +112,11 @@ where
                     break self.client_shutdown(id).await;
                 }
 
-                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await?,
+                // If this fails, then the broker has already shut down. It might have sent a
+                // `Shutdown` before, in which case the client must still be told.
+                Selected::Transport(Ok(msg)) => {
+                    let _ = self.send_broker_msg(id.clone(), msg).await;
+                }
 
                 Selected::TransportFlushed(Ok(())) => self.flush_transport = false,
 
@@ -150,7 +154,8 @@ where
     }
 
     async fn client_shutdown(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
-        self.send_broker_shutdown(id).await?;
+        // The client waits for a `Shutdown`, even if the broker has already shut down.
+        let _ = self.send_broker_shutdown(id).await;
         self.send_message(Shutdown).await?;
         self.drain_broker_recv().await;
 
-- 
2.43.0


From 3675364008b3a6868f4518eefcbbb66338ca4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 11/25] fix: parser: don't overflow when the largest id is used
 twice

---
 parser/src/error/duplicate_enum_variant_id.rs |  8 +++----
 parser/src/error/duplicate_event_id.rs        |  8 +++----
 parser/src/error/duplicate_function_id.rs     |  8 +++----
 parser/src/error/duplicate_struct_field_id.rs |  8 +++----
 parser/src/util.rs                            | 22 ++++++++++++++++++-
 5 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index 57b2c74..f33204c 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -15,19 +15,17 @@ pub(crate) struct DuplicateEnumVariantId {
 
 impl DuplicateEnumVariantId {
     pub(crate) fn validate(vars: &[EnumVariant], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = vars
+        let mut ids = vars
             .iter()
             .filter_map(|var| var.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+            .collect();
 
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
             |var| var.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = util::free_id(&mut ids);
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index 28630df..62ecbee 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -20,18 +20,16 @@ impl DuplicateEventId {
             _ => None,
         });
 
-        let mut max_id = events
+        let mut ids = events
             .clone()
             .filter_map(|ev| ev.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+            .collect();
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
             |ev| ev.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = util::free_id(&mut ids);
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index d5ff66b..300464e 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -20,18 +20,16 @@ impl DuplicateFunctionId {
             _ => None,
         });
 
-        let mut max_id = funcs
+        let mut ids = funcs
             .clone()
             .filter_map(|func| func.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+            .collect();
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
             |func| func.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = util::free_id(&mut ids);
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index bd72993..44704a1 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -15,11 +15,10 @@ pub(crate) struct DuplicateStructFieldId {
 
 impl DuplicateStructFieldId {
     pub(crate) fn validate(fields: &[StructField], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = fields
+        let mut ids = fields
             .iter()
             .filter_map(|field| field.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+            .collect();
 
         util::find_duplicates(
             fields
@@ -27,8 +26,7 @@ impl DuplicateStructFieldId {
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
             |field| field.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = util::free_id(&mut ids);
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 732dfc2..814db4a 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -5,7 +5,7 @@ use crate::validate::Validate;
 use crate::Schema;
 use heck::{AsShoutySnakeCase, AsSnakeCase, AsUpperCamelCase};
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::fmt;
 use std::hash::Hash;
 use Language::Rust;
@@ -207,6 +207,26 @@ where
     }
 }
 
+/// Finds an id that is not in `ids` and adds it.
+///
+/// This prefers the one after the largest id. When there is no such id, then it is the smallest id
+/// that isn't used.
+pub(crate) fn free_id(ids: &mut BTreeSet<u32>) -> u32 {
+    let id = match ids.last() {
+        Some(&max) => max.checked_add(1).unwrap_or_else(|| {
+            (0..)
+                .zip(ids.iter())
+                .find_map(|(free, &id)| (free != id).then_some(free))
+                .unwrap_or(max)
+        }),
+
+        None => 0,
+    };
+
+    ids.insert(id);
+    id
+}
+
 pub(crate) fn resolves_to_key_type<'a>(
     mut kind: &'a TypeNameKind,
     mut schema: &'a Schema,
-- 
2.43.0


From 20cffe160cbe8eda4105754f7a2ade7ed21a190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 12/25] fix: parser: report the same diagnostics every time

---
 parser/src/error/duplicate_service_uuid.rs |  4 ++--
 parser/src/link_resolver.rs                |  6 +++---
 parser/src/parser.rs                       |  8 ++++----
 parser/src/util.rs                         | 21 ++++++++-------------
 parser/src/validate.rs                     |  6 +++---
 5 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/parser/src/error/duplicate_service_uuid.rs b/parser/src/error/duplicate_service_uuid.rs
index 4255122..6006b37 100644
--- a/parser/src/error/duplicate_service_uuid.rs
+++ b/parser/src/error/duplicate_service_uuid.rs
@@ -3,7 +3,7 @@ use crate::ast::{Ident, LitUuid};
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::issues::Issues;
 use crate::{Parser, Schema};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Debug)]
 pub(crate) struct DuplicateServiceUuid {
@@ -17,7 +17,7 @@ impl DuplicateServiceUuid {
     where
         I: IntoIterator<Item = &'a Schema>,
     {
-        let mut uuids: HashMap<_, Vec<_>> = HashMap::new();
+        let mut uuids: BTreeMap<_, Vec<_>> = BTreeMap::new();
 
         for schema in schemas {
             for def in schema.definitions() {
diff --git a/parser/src/link_resolver.rs b/parser/src/link_resolver.rs
index 797dfe6..189c35b 100644
--- a/parser/src/link_resolver.rs
+++ b/parser/src/link_resolver.rs
@@ -7,7 +7,7 @@ use crate::ast::{
     StructDef, StructFallback, StructField, TypeNameOrInline,
 };
 use crate::{Parser, Schema, Span};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::mem;
 use thiserror::Error;
 
@@ -16,7 +16,7 @@ type ResolveResult<'a> = Result<'a, ResolvedLink<'a>>;
 
 #[derive(Debug, Copy, Clone)]
 pub struct LinkResolver<'a> {
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     schema: &'a Schema,
 }
 
@@ -25,7 +25,7 @@ impl<'a> LinkResolver<'a> {
         Self::from_parts(parser.schemas(), schema)
     }
 
-    pub(crate) fn from_parts(schemas: &'a HashMap<String, Schema>, schema: &'a Schema) -> Self {
+    pub(crate) fn from_parts(schemas: &'a BTreeMap<String, Schema>, schema: &'a Schema) -> Self {
         Self { schemas, schema }
     }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ea4709a..e7f0124 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -2,13 +2,13 @@ use crate::error::DuplicateServiceUuid;
 use crate::issues::Issues;
 use crate::validate::Validate;
 use crate::{Error, Resolver, Schema, Warning};
-use std::collections::hash_map::{Entry, HashMap};
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::iter;
 
 #[derive(Debug)]
 pub struct Parser {
     main_schema: String,
-    schemas: HashMap<String, Schema>,
+    schemas: BTreeMap<String, Schema>,
     issues: Issues,
 }
 
@@ -19,7 +19,7 @@ impl Parser {
 
         let mut this = Self {
             main_schema: main_schema.name().to_owned(),
-            schemas: HashMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
+            schemas: BTreeMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
             issues,
         };
 
@@ -88,7 +88,7 @@ impl Parser {
         self.issues.other_warnings()
     }
 
-    pub(crate) fn schemas(&self) -> &HashMap<String, Schema> {
+    pub(crate) fn schemas(&self) -> &BTreeMap<String, Schema> {
         &self.schemas
     }
 }
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 814db4a..e3179fb 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -5,7 +5,8 @@ use crate::validate::Validate;
 use crate::Schema;
 use heck::{AsShoutySnakeCase, AsSnakeCase, AsUpperCamelCase};
 use std::cmp::Ordering;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::hash_map::{Entry, HashMap};
+use std::collections::{BTreeSet, HashSet};
 use std::fmt;
 use std::hash::Hash;
 use Language::Rust;
@@ -188,21 +189,15 @@ where
     K: Hash + Eq,
     DFN: FnMut(I::Item, &I::Item),
 {
-    let mut candidates: HashMap<_, Vec<_>> = HashMap::new();
+    let mut firsts = HashMap::new();
 
     for elem in iter {
-        candidates.entry(key_fn(&elem)).or_default().push(elem);
-    }
-
-    for (_, candidates) in candidates {
-        if candidates.len() <= 1 {
-            continue;
-        }
+        match firsts.entry(key_fn(&elem)) {
+            Entry::Occupied(first) => dup_fn(elem, first.get()),
 
-        let mut duplicates = candidates.into_iter();
-        let first = duplicates.next().unwrap();
-        for duplicate in duplicates {
-            dup_fn(duplicate, &first);
+            Entry::Vacant(entry) => {
+                entry.insert(elem);
+            }
         }
     }
 }
diff --git a/parser/src/validate.rs b/parser/src/validate.rs
index db6e903..b423a62 100644
--- a/parser/src/validate.rs
+++ b/parser/src/validate.rs
@@ -1,11 +1,11 @@
 use crate::issues::Issues;
 use crate::{Error, LinkResolver, Schema, Warning};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub(crate) struct Validate<'a> {
     schema_name: &'a str,
     issues: &'a mut Issues,
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     is_main_schema: bool,
 }
 
@@ -13,7 +13,7 @@ impl<'a> Validate<'a> {
     pub(crate) fn new(
         schema_name: &'a str,
         issues: &'a mut Issues,
-        schemas: &'a HashMap<String, Schema>,
+        schemas: &'a BTreeMap<String, Schema>,
         is_main_schema: bool,
     ) -> Self {
         Validate {
-- 
2.43.0


From 35d57543375de424c2f2667cd6ed729bc54ae4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 13/25] fix: parser: accept fields called required in front of
 white space

---
 parser/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/grammar.pest b/parser/grammar.pest
index 9b7a73d..2bf3560 100644
--- a/parser/grammar.pest
+++ b/parser/grammar.pest
@@ -148,7 +148,7 @@ def = { struct_def | enum_def | service_def | const_def | newtype_def }
 
 struct_def = { (comment | doc_string | attribute)* ~ kw_struct ~ ident ~ tok_cur_open ~ struct_field* ~ struct_fallback? ~ tok_cur_close }
 struct_inline = { kw_struct ~ tok_cur_open ~ (doc_string_inline | attribute_inline)* ~ struct_field* ~ struct_fallback? ~ tok_cur_close }
-struct_field = { (comment | doc_string)* ~ kw_required? ~ ident ~ tok_at ~ lit_int ~ tok_eq ~ type_name ~ tok_term }
+struct_field = { (comment | doc_string)* ~ (kw_required ~ &ident)? ~ ident ~ tok_at ~ lit_int ~ tok_eq ~ type_name ~ tok_term }
 struct_fallback = { (comment | doc_string)* ~ ident ~ tok_eq ~ kw_fallback ~ tok_term }
 
 enum_def = { (comment | doc_string | attribute)* ~ kw_enum ~ ident ~ tok_cur_open ~ enum_variant* ~ enum_fallback? ~ tok_cur_close }
-- 
2.43.0


From 4b4c177a21f23da39bf3a5f0a7eddff388a2e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 14/25] fix: codegen: escape doc strings that are passed to the
 derive macros

---
 codegen/src/rust.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 31f7b5f..37a70e8 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -239,7 +239,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -268,7 +268,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in field.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -291,7 +291,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -352,7 +352,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -376,7 +376,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in var.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -400,7 +400,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -457,7 +457,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in svc.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "    #[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -480,7 +480,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in func.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -524,7 +524,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in ev.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -552,7 +552,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -571,7 +571,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -796,7 +796,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in newtype_def.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
-- 
2.43.0


From d99915f7f37fd7cf416c7832abab785c582e4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 15/25] fix: macros: accept the largest id

---
 macros/src/derive/enum_data.rs      | 2 +-
 macros/src/derive/introspectable.rs | 4 ++--
 macros/src/derive/struct_data.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/enum_data.rs b/macros/src/derive/enum_data.rs
index b4698b9..1e1c27a 100644
--- a/macros/src/derive/enum_data.rs
+++ b/macros/src/derive/enum_data.rs
@@ -40,7 +40,7 @@ impl<'a> EnumData<'a> {
                 VariantData::new(variant, name, input.generics.lifetimes(), default_id)?;
 
             fallback = variant_data.is_fallback();
-            default_id = variant_data.id() + 1;
+            default_id = variant_data.id().wrapping_add(1);
             variant_datas.push(variant_data);
         }
 
diff --git a/macros/src/derive/introspectable.rs b/macros/src/derive/introspectable.rs
index bbbd8ea..7ff2ca5 100644
--- a/macros/src/derive/introspectable.rs
+++ b/macros/src/derive/introspectable.rs
@@ -137,7 +137,7 @@ fn gen_regular_struct(
                 ));
             }
 
-            next_id = item_options.id() + 1;
+            next_id = item_options.id().wrapping_add(1);
 
             let (field_layout, field_references) = gen_field(field, index, options, &item_options);
 
@@ -289,7 +289,7 @@ fn gen_enum(
             ));
         }
 
-        next_id = item_options.id() + 1;
+        next_id = item_options.id().wrapping_add(1);
 
         let (var_layout, var_references) = gen_variant(variant, options, &item_options)?;
 
diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 90e7caa..62f4f85 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -73,7 +73,7 @@ impl<'a> StructData<'a> {
                 fallback = true;
             }
 
-            default_id = field_data.id() + 1;
+            default_id = field_data.id().wrapping_add(1);
             field_datas.push(field_data);
         }
 
-- 
2.43.0


From 8eca1361ad5dcfdf5e945c2f7fad2e3b197bd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 16/25] fix: macros: keep field names apart from the variables
 of deserialize

---
 macros/src/derive/struct_data.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 62f4f85..a2dfebb 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -3,7 +3,6 @@ use crate::doc_string::DocString;
 use crate::util;
 use proc_macro2::TokenStream;
 use quote::{format_ident, ToTokens};
-use std::borrow::Cow;
 use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
@@ -148,7 +147,7 @@ pub(crate) struct FieldData<'a> {
     ty: &'a Type,
     ty_generic: Ident,
     ty_tag: Type,
-    var: Cow<'a, Ident>,
+    var: Ident,
 }
 
 impl<'a> FieldData<'a> {
@@ -178,8 +177,8 @@ impl<'a> FieldData<'a> {
         );
 
         let var = match name {
-            FieldName::Ident(name) => Cow::Borrowed(name),
-            FieldName::Index(ref index) => Cow::Owned(format_ident!("r#_field{}", index.index)),
+            FieldName::Ident(name) => format_ident!("_field_{}", name.unraw(), span = name.span()),
+            FieldName::Index(ref index) => format_ident!("r#_field{}", index.index),
         };
 
         Ok(Self {
-- 
2.43.0


From f992593e13a74f217d31c8937238a29c35982a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 17/25] fix: macros: don't mistake types called Ok for
 Result::Ok

---
 macros/src/derive/deserialize.rs | 2 +-
 macros/src/service/body.rs       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/macros/src/derive/deserialize.rs b/macros/src/derive/deserialize.rs
index 09030ab..a6833a7 100644
--- a/macros/src/derive/deserialize.rs
+++ b/macros/src/derive/deserialize.rs
@@ -86,7 +86,7 @@ impl StructData<'_> {
                     }
 
                     _deserializer.finish_with(|_fallback| {
-                        Ok(Self {
+                        ::std::result::Result::Ok(Self {
                             #(#field_finish),*
                         })
                     })
diff --git a/macros/src/service/body.rs b/macros/src/service/body.rs
index 10d6846..7135c3e 100644
--- a/macros/src/service/body.rs
+++ b/macros/src/service/body.rs
@@ -111,7 +111,7 @@ impl Body {
                 }
 
                 let inner = #krate::low_level::Proxy::new(client, id).await?;
-                Ok(Self { inner })
+                ::std::result::Result::Ok(Self { inner })
             }
 
             pub fn inner(&self) -> &#krate::low_level::Proxy {
@@ -147,7 +147,7 @@ impl Body {
 
             pub async fn subscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
                 #subscribe_all_body
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
             pub async fn unsubscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
-- 
2.43.0


From a988fb3c3fa64672c197e9d1efb6111c9bca36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 18/25] fix: macros: don't mistake types called None for
 Option::None

---
 macros/src/service/body.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/service/body.rs b/macros/src/service/body.rs
index 7135c3e..c78097c 100644
--- a/macros/src/service/body.rs
+++ b/macros/src/service/body.rs
@@ -168,7 +168,7 @@ impl Body {
                         ::std::task::Poll::Ready(::std::option::Option::Some(ev)) => ev,
 
                         ::std::task::Poll::Ready(::std::option::Option::None) => {
-                            break ::std::task::Poll::Ready(None);
+                            break ::std::task::Poll::Ready(::std::option::Option::None);
                         }
 
                         ::std::task::Poll::Pending => break ::std::task::Poll::Pending,
-- 
2.43.0


From 1c619509d29fe3a6b8c964fcc2da517881d54d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/25] fix: codegen: don't derive the traits of key types
 twice on newtypes

---
 codegen/src/rust.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 37a70e8..8516e56 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -751,10 +751,20 @@ impl RustGenerator<'_> {
         let ident = format!("r#{name}");
         let ty = self.type_name(newtype_def.target_type());
         let schema_name = self.schema.name();
-        let additional_derives =
-            RustAttributes::parse(newtype_def.attributes()).additional_derives();
         let (is_key_type, derive_default) =
             self.newtype_properties(self.schema, newtype_def.target_type());
+        let mut attrs = RustAttributes::parse(newtype_def.attributes());
+
+        if is_key_type {
+            // All of these are derived anyway.
+            attrs.impl_partial_eq = false;
+            attrs.impl_eq = false;
+            attrs.impl_partial_ord = false;
+            attrs.impl_ord = false;
+            attrs.impl_hash = false;
+        }
+
+        let additional_derives = attrs.additional_derives();
 
         let (doc_comment, doc_alt) = self.doc_string(newtype_def.doc(), 0);
         code!(self, "{doc_comment}");
-- 
2.43.0


From 39ba4b0bc5f527a07b563789cbe1de169007a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 20/25] fix: codegen: accept keywords as names of constants

---
 codegen/src/rust.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 8516e56..cb07707 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -685,7 +685,10 @@ impl RustGenerator<'_> {
 
     fn const_def(&mut self, const_def: &ast::ConstDef) {
         let krate = self.rust_options.krate_or_default();
-        let name = const_def.name().value();
+        let ident = match const_def.name().value() {
+            "_" => "_".to_owned(),
+            name => format!("r#{name}"),
+        };
 
         let (doc_comment, _) = self.doc_string(const_def.doc(), 0);
         code!(self, "{doc_comment}");
@@ -693,52 +696,52 @@ impl RustGenerator<'_> {
         match const_def.value() {
             ast::ConstValue::U8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U8} = {val};");
+                codeln!(self, "pub const {ident}: {U8} = {val};");
             }
 
             ast::ConstValue::I8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I8} = {val};");
+                codeln!(self, "pub const {ident}: {I8} = {val};");
             }
 
             ast::ConstValue::U16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U16} = {val};");
+                codeln!(self, "pub const {ident}: {U16} = {val};");
             }
 
             ast::ConstValue::I16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I16} = {val};");
+                codeln!(self, "pub const {ident}: {I16} = {val};");
             }
 
             ast::ConstValue::U32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U32} = {val};");
+                codeln!(self, "pub const {ident}: {U32} = {val};");
             }
 
             ast::ConstValue::I32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I32} = {val};");
+                codeln!(self, "pub const {ident}: {I32} = {val};");
             }
 
             ast::ConstValue::U64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U64} = {val};");
+                codeln!(self, "pub const {ident}: {U64} = {val};");
             }
 
             ast::ConstValue::I64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I64} = {val};");
+                codeln!(self, "pub const {ident}: {I64} = {val};");
             }
 
             ast::ConstValue::String(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: &{STR} = {val};");
+                codeln!(self, "pub const {ident}: &{STR} = {val};");
             }
 
             ast::ConstValue::Uuid(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
+                codeln!(self, "pub const {ident}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
             }
         };
 
-- 
2.43.0


From c4d9757fddc0ea5577e13a849a3e53cc1aa2c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 21/25] fix: codegen: escape the strings of constants

---
 codegen/src/rust.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index cb07707..3c5f225 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -735,8 +735,8 @@ impl RustGenerator<'_> {
             }
 
             ast::ConstValue::String(v) => {
-                let val = v.value();
-                codeln!(self, "pub const {ident}: &{STR} = {val};");
+                let val = const_string(v.value_inner());
+                codeln!(self, "pub const {ident}: &{STR} = \"{val}\";");
             }
 
             ast::ConstValue::Uuid(v) => {
@@ -1687,6 +1687,21 @@ impl RustGenerator<'_> {
     }
 }
 
+/// Escapes everything in a string literal of a schema, that isn't allowed in one of Rust.
+fn const_string(val: &str) -> String {
+    let mut res = String::with_capacity(val.len());
+
+    for c in val.chars() {
+        match c {
+            // Both are already escaped in the schema.
+            '"' | '\\' => res.push(c),
+            _ => res.extend(c.escape_debug()),
+        }
+    }
+
+    res
+}
+
 struct RustAttributes {
     impl_copy: bool,
     impl_partial_eq: bool,
-- 
2.43.0


From 25b89f1cee8e28f3bf58a6ece1b3c2522f2f5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 22/25] fix: codegen: don't mistake types called usize for the
 primitive

---
 codegen/src/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 3c5f225..5d572d4 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -901,7 +901,7 @@ impl RustGenerator<'_> {
 
             ast::ArrayLenValue::Ref(named_ref) => {
                 format!(
-                    "[{}; {} as usize]",
+                    "[{}; {} as ::std::primitive::usize]",
                     self.type_name(ty),
                     self.named_ref_name(named_ref)
                 )
-- 
2.43.0


From 8b82b76169897dc7a1766f894a365ddd44bb3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 23/25] fix: macros: don't mistake types called u8 for the
 primitive

---
 macros/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/codegen.rs b/macros/src/codegen.rs
index ca8344b..15540cd 100644
--- a/macros/src/codegen.rs
+++ b/macros/src/codegen.rs
@@ -57,7 +57,7 @@ pub(crate) fn generate(args: Args, emitter: &mut Emitter) -> manyhow::Result {
 
         write!(
             &mut modules,
-            "pub mod r#{} {{ {} const _: &[u8] = include_bytes!(\"{}\"); ",
+            "pub mod r#{} {{ {} const _: &[::std::primitive::u8] = include_bytes!(\"{}\"); ",
             output.module_name,
             output.module_content,
             schema.display()
@@ -67,7 +67,7 @@ pub(crate) fn generate(args: Args, emitter: &mut Emitter) -> manyhow::Result {
         for patch in &args.patches {
             write!(
                 &mut modules,
-                "const _: &[u8] = include_bytes!(\"{}\"); ",
+                "const _: &[::std::primitive::u8] = include_bytes!(\"{}\"); ",
                 patch.display()
             )
             .unwrap();
-- 
2.43.0


From 27c364c0b974b6c95b41089b67ac54a66e70e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 24/25] fix: codegen: accept enum variants called Crate or
 Super

---
 codegen/src/rust/names.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codegen/src/rust/names.rs b/codegen/src/rust/names.rs
index 665f2c0..32df989 100644
--- a/codegen/src/rust/names.rs
+++ b/codegen/src/rust/names.rs
@@ -101,7 +101,14 @@ pub fn default_ref_type(ty: &str) -> String {
 
 /// Returns the name of the constructor function in a ref type for an enum's variant.
 pub fn enum_ref_type_ctor(variant: &str) -> String {
-    util::to_snake_case(variant)
+    let mut ctor = util::to_snake_case(variant);
+
+    // These can't be raw identifiers.
+    if matches!(ctor.as_str(), "crate" | "self" | "super") {
+        ctor.push('_');
+    }
+
+    ctor
 }
 
 pub fn register_introspection(schema: &str) -> String {
-- 
2.43.0


From 3f42faab17e07a41f443e7eb12c0a0cdf13c5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 25/25] fix: parser: don't take exponentially long to look for
 recursive types

---
 parser/src/error/recursive_type.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/error/recursive_type.rs b/parser/src/error/recursive_type.rs
index 93871a5..13fd33d 100644
--- a/parser/src/error/recursive_type.rs
+++ b/parser/src/error/recursive_type.rs
@@ -6,6 +6,7 @@ use crate::ast::{
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::validate::Validate;
 use crate::{Parser, Schema};
+use std::collections::HashSet;
 use std::ops::ControlFlow;
 
 #[derive(Debug)]
@@ -157,6 +158,7 @@ impl From<RecursiveNewtype> for Error {
 
 struct Visitor<'a> {
     stack: Vec<(&'a str, Type<'a>)>,
+    done: HashSet<(&'a str, &'a str)>,
     validate: &'a Validate<'a>,
 }
 
@@ -185,6 +187,7 @@ impl<'a> Visitor<'a> {
     fn new(validate: &'a Validate<'a>) -> Self {
         Self {
             stack: Vec::new(),
+            done: HashSet::new(),
             validate,
         }
     }
@@ -221,7 +224,10 @@ impl<'a> Visitor<'a> {
     }
 
     fn pop(&mut self) -> ControlFlow<bool> {
-        self.stack.pop();
+        if let Some((schema_name, ty)) = self.stack.pop() {
+            self.done.insert((schema_name, ty.name()));
+        }
+
         ControlFlow::Continue(())
     }
 
@@ -318,6 +324,12 @@ impl<'a> Visitor<'a> {
             }
         };
 
+        // Types that have already been visited don't lead to any recursion. Visiting them over and over
+        // again takes exponentially long.
+        if self.done.contains(&(schema.name(), name)) {
+            return ControlFlow::Continue(());
+        }
+
         let mut defs = schema
             .definitions()
             .iter()
-- 
2.43.0

