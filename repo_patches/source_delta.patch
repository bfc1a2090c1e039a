From 6cb19f4e438e3ad500c3460d22e5efc564fbc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/21] verif: guarded hooks (cfg rtps_verif) giving a harness
 access to private items

---
 src/behavior/reader_locator.rs                | 18 +++++++
 src/behavior/stateful_writer.rs               | 17 ++++++
 src/behavior/stateless_writer.rs              | 53 +++++++++++++++++++
 src/lib.rs                                    | 19 +++++++
 src/messages/receiver.rs                      |  8 +++
 src/messages/submessage_elements/parameter.rs | 19 +++++++
 src/structure/history_cache.rs                | 34 ++++++++++++
 7 files changed, 168 insertions(+)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..ef180fc 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,21 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+/// Verification hook, compiled only with `--cfg rtps_verif="locators"`.
+#[cfg(rtps_verif = "locators")]
+impl ReaderLocator {
+    pub fn verif_new(
+        locator: Locator_t,
+        expects_inline_qos: bool,
+        requested_changes: Vec<CacheChange>,
+        unsent_changes: Vec<CacheChange>,
+    ) -> Self {
+        ReaderLocator {
+            requested_changes,
+            unsent_changes,
+            locator,
+            expects_inline_qos,
+        }
+    }
+}
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..44ec426 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -76,5 +76,22 @@ impl StatefulWriter {
     }
 }
 
+/// Verification hook, compiled only with `--cfg rtps_verif="stateful"`.
+#[cfg(rtps_verif = "stateful")]
+impl StatefulWriter {
+    pub fn verif_new(
+        entity: EntityAttributes,
+        endpoint: EndpointAttributes,
+        writer: WriterAttributes,
+    ) -> Self {
+        StatefulWriter {
+            matched_readers: Vec::new(),
+            entity,
+            endpoint,
+            writer,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..c69d23d 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -95,5 +95,58 @@ impl StatelessWriter {
     }
 }
 
+/// Verification hook, compiled only with `--cfg rtps_verif="stateless"`.
+#[cfg(rtps_verif = "stateless")]
+pub mod verif {
+    use super::*;
+
+    pub struct Stateless(StatelessWriter);
+
+    impl Stateless {
+        pub fn new(
+            entity_attributes: EntityAttributes,
+            endpoint_attributes: EndpointAttributes,
+            writer_attributes: WriterAttributes,
+            resend_data_period: Time_t,
+        ) -> Self {
+            Stateless(StatelessWriter::new(
+                entity_attributes,
+                endpoint_attributes,
+                writer_attributes,
+                resend_data_period,
+            ))
+        }
+
+        pub fn new_change(
+            &mut self,
+            kind: ChangeKind_t,
+            data: Data,
+            handle: InstanceHandle_t,
+        ) -> CacheChange {
+            self.0.new_change(kind, data, handle)
+        }
+
+        pub fn as_writer(&self) -> &WriterAttributes {
+            self.0.as_writer()
+        }
+
+        pub fn as_entity(&self) -> &EntityAttributes {
+            self.0.as_entity()
+        }
+
+        pub fn reader_locator_add(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_add(a_locator)
+        }
+
+        pub fn reader_locator_remove(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_remove(a_locator)
+        }
+
+        pub fn reader_locators(&self) -> impl Iterator<Item = &ReaderLocator> {
+            self.0.reader_locators.iter()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..366ef4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(dead_code)]
 #![allow(non_camel_case_types)]
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)] // `rtps_verif` guards the verification hooks
 
 extern crate bit_set;
 extern crate bit_vec;
@@ -20,3 +21,21 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+/// Verification hook: makes the public items of the private modules reachable
+/// for an external harness. Compiled only with `--cfg rtps_verif`.
+#[cfg(rtps_verif)]
+pub mod verif {
+    pub mod behavior {
+        pub use crate::behavior::*;
+    }
+    pub mod common {
+        pub use crate::common::*;
+    }
+    pub mod messages {
+        pub use crate::messages::*;
+    }
+    pub mod structure {
+        pub use crate::structure::*;
+    }
+}
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..e97908f 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -75,6 +75,14 @@ impl MessageReceiver {
     }
 }
 
+/// Verification hook, compiled only with `--cfg rtps_verif`.
+#[cfg(rtps_verif)]
+impl MessageReceiver {
+    pub fn verif_receiver(&self) -> &Receiver {
+        &self.receiver
+    }
+}
+
 impl Decoder for MessageReceiver {
     type Item = EntitySubmessage;
     type Error = std::io::Error;
diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..77299be 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -57,6 +57,25 @@ impl<C: Context> Writable<C> for Parameter {
     }
 }
 
+/// Verification hook, compiled only with `--cfg rtps_verif="parameter"`.
+#[cfg(rtps_verif = "parameter")]
+impl Parameter {
+    pub fn verif_new(parameter_id: ParameterId, value: Vec<u8>) -> Self {
+        Parameter {
+            parameter_id,
+            value,
+        }
+    }
+
+    pub fn verif_parameter_id(&self) -> &ParameterId {
+        &self.parameter_id
+    }
+
+    pub fn verif_value(&self) -> &[u8] {
+        &self.value
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..a07ebfd 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -42,6 +42,40 @@ impl HistoryCache {
     }
 }
 
+/// Verification hook, compiled only with `--cfg rtps_verif="history"`.
+#[cfg(rtps_verif = "history")]
+pub mod verif {
+    use super::*;
+
+    pub struct Cache(HistoryCache);
+
+    impl Cache {
+        pub fn new() -> Cache {
+            Cache(HistoryCache::new())
+        }
+
+        pub fn add_change(&mut self, change: CacheChange) {
+            self.0.add_change(change)
+        }
+
+        pub fn get_change(&self, sequence_number: SequenceNumber_t) -> Option<&CacheChange> {
+            self.0.get_change(sequence_number)
+        }
+
+        pub fn remove_change(&mut self, sequence_number: SequenceNumber_t) {
+            self.0.remove_change(sequence_number)
+        }
+
+        pub fn get_seq_num_min(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_min().cloned()
+        }
+
+        pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_max().cloned()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From f4b33fa81be762239a71d8b2297d186d4024a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 02/21] fix: wait for the complete header or submessage before
 decoding it

decode split the header (20 bytes), the submessage header (4 bytes) and the
declared content off the buffer without checking that they had arrived, so a
partial read or a length beyond the end of the message panicked.
---
 src/messages/receiver.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index e97908f..356e3c5 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -73,6 +73,27 @@ impl MessageReceiver {
             state: DeserializationState::ReadingHeader,
         }
     }
+
+    /// How many bytes have to be at hand for the next step of decoding
+    fn bytes_needed(&self, bytes: &[u8]) -> Result<usize, Error> {
+        match self.state {
+            DeserializationState::ReadingHeader => {
+                Ok(<Header as Readable<Endianness>>::minimum_bytes_needed())
+            }
+            DeserializationState::ReadingSubmessage => {
+                let header_length =
+                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed();
+                if bytes.len() < header_length {
+                    return Ok(header_length);
+                }
+                let header = SubmessageHeader::read_from_buffer_with_ctx(
+                    Endianness::NATIVE,
+                    &bytes[..header_length],
+                )?;
+                Ok(header_length + usize::from(header.submessage_length))
+            }
+        }
+    }
 }
 
 /// Verification hook, compiled only with `--cfg rtps_verif`.
@@ -96,6 +117,11 @@ impl Decoder for MessageReceiver {
             }
         };
 
+        // Nothing is consumed before the whole header or submessage has arrived
+        if bytes.len() < self.bytes_needed(bytes)? {
+            return Ok(None);
+        }
+
         match self.state {
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
-- 
2.43.0


From 8b886de6052f4317365dcf0a93ccfe470b132d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/21] fix: skip the content of a submessage of unknown kind

Only its header was consumed, so its content was taken for submessages.
---
 src/messages/receiver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 356e3c5..5db537c 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -316,6 +316,8 @@ impl Decoder for MessageReceiver {
                             "Received unknown submessage with id {:?}, skipping",
                             submessage_header.submessage_id
                         );
+                        use crate::bytes::Buf;
+                        bytes.advance(submessage_header.submessage_length.into());
                         Ok(None)
                     }
                 })
-- 
2.43.0


From b5febadafaefb7803a3e9d0c7efd7d26adfa4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 04/21] fix: skip the content of an INFO_TS that invalidates
 the timestamp

A declared content was left in the buffer and taken for submessages.
---
 src/messages/receiver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 5db537c..6241323 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -301,6 +301,8 @@ impl Decoder for MessageReceiver {
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
                         } else {
+                            use crate::bytes::Buf;
+                            bytes.advance(submessage_header.submessage_length.into());
                             self.receiver.have_timestamp = false;
                         }
 
-- 
2.43.0


From 69143dc44ab2f9a2f809f0ac759f00decf2105d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 05/21] fix: skip DATA and DATA_FRAG submessages instead of
 panicking

Decoding them is not implemented; every message with user data crashed the
process. They are skipped like any other kind the receiver does not support.
---
 src/messages/receiver.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 6241323..f9f27a6 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -172,12 +172,6 @@ impl Decoder for MessageReceiver {
                             submessage_header.flags,
                         )))
                     }
-                    SubmessageKind::DATA => {
-                        unimplemented!();
-                    }
-                    SubmessageKind::DATA_FRAG => {
-                        unimplemented!();
-                    }
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
@@ -313,9 +307,10 @@ impl Decoder for MessageReceiver {
                         bytes.advance(submessage_header.submessage_length.into());
                         Ok(None)
                     }
+                    // Decoding of DATA and DATA_FRAG is not supported yet
                     _ => {
                         info!(
-                            "Received unknown submessage with id {:?}, skipping",
+                            "Received unsupported submessage with id {:?}, skipping",
                             submessage_header.submessage_id
                         );
                         use crate::bytes::Buf;
-- 
2.43.0


From 2420ebf149795ab0f75716112c9dc703f3527f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 06/21] fix: extend a last submessage to the end of the message

A submessage that declares length zero (and is not PAD or INFO_TS) was taken
for the last one, but its content was taken to be empty and left unread.
---
 src/messages/receiver.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index f9f27a6..0286235 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -145,6 +145,8 @@ impl Decoder for MessageReceiver {
             }),
 
             DeserializationState::ReadingSubmessage => {
+                let mut content_length = 0;
+
                 SubmessageHeader::read_from_buffer_owned_with_ctx(
                     Endianness::NATIVE,
                     &bytes.split_to(
@@ -152,11 +154,13 @@ impl Decoder for MessageReceiver {
                     ),
                 )
                 .and_then(|submessage_header| {
+                    content_length = submessage_header.submessage_length.into();
                     if submessage_header.submessage_length == 0
                         && submessage_header.submessage_id != SubmessageKind::INFO_TS
                         && submessage_header.submessage_id != SubmessageKind::PAD
                     {
-                        // This is a last submessage
+                        // This is a last submessage, it extends to the end of the message
+                        content_length = bytes.len();
                         self.state = DeserializationState::ReadingHeader;
                     }
                     Ok(submessage_header)
@@ -165,7 +169,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::ACKNACK => {
                         let ack_nack = AckNack::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
                         Ok(Some(EntitySubmessage::AckNack(
                             ack_nack,
@@ -175,14 +179,14 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
                         Ok(Some(EntitySubmessage::Gap(gap)))
                     }
                     SubmessageKind::NACK_FRAG => {
                         let nack_frag = NackFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::NackFrag(nack_frag)))
@@ -190,7 +194,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT => {
                         let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::Heartbeat(
@@ -201,7 +205,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT_FRAG => {
                         let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::HeartbeatFrag(heartbeat_frag)))
@@ -209,7 +213,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_SRC => {
                         let info_src = InfoSource::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
                         self.receiver.source_guid_prefix = info_src.guid_prefix;
                         self.receiver.source_version = info_src.protocol_version;
@@ -224,7 +228,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_DST => {
                         let info_dst = InfoDestination::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(content_length),
                         )?;
 
                         if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
@@ -234,7 +238,7 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
+                        let mut bytes = bytes.split_to(content_length);
                         let (unicast_locator_list, read_bytes) =
                             LocatorList_t::read_with_length_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
@@ -261,7 +265,7 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
+                        let mut bytes = bytes.split_to(content_length);
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
                             &bytes.split_to(
@@ -290,13 +294,13 @@ impl Decoder for MessageReceiver {
                         if !submessage_header.flags.is_flag_set(0x02) {
                             let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(submessage_header.submessage_length.into()),
+                                &bytes.split_to(content_length),
                             )?;
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
                         } else {
                             use crate::bytes::Buf;
-                            bytes.advance(submessage_header.submessage_length.into());
+                            bytes.advance(content_length);
                             self.receiver.have_timestamp = false;
                         }
 
@@ -304,7 +308,7 @@ impl Decoder for MessageReceiver {
                     }
                     SubmessageKind::PAD => {
                         use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
+                        bytes.advance(content_length);
                         Ok(None)
                     }
                     // Decoding of DATA and DATA_FRAG is not supported yet
@@ -314,7 +318,7 @@ impl Decoder for MessageReceiver {
                             submessage_header.submessage_id
                         );
                         use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
+                        bytes.advance(content_length);
                         Ok(None)
                     }
                 })
-- 
2.43.0


From 4b7a3cdfa1a3947b4af687f49177587840570baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/21] fix: report an INFO_REPLY_IP4 that is too short as an
 error

Splitting the locators off a shorter content panicked.
---
 src/messages/receiver.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 0286235..e25d326 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -265,12 +265,10 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(content_length);
+                        let bytes = bytes.split_to(content_length);
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
+                            &bytes,
                         )?;
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
@@ -278,10 +276,9 @@ impl Decoder for MessageReceiver {
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
+                                &bytes[
+                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed()..
+                                ],
                             )?;
                                 vec![multicast_locator.into()]
                             } else {
-- 
2.43.0


From 4a6b621487620eeff05c5726a66375f7000f72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 08/21] fix: let INFO_DST with the unknown prefix address the
 receiver again

After an INFO_DST with another prefix it was ignored, so submessages for every
participant were taken for submessages to that other one.
---
 src/messages/receiver.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index e25d326..7a28448 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -231,9 +231,8 @@ impl Decoder for MessageReceiver {
                             &bytes.split_to(content_length),
                         )?;
 
-                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
-                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;
-                        }
+                        // GUIDPREFIX_UNKNOWN denotes the participant receiving the message
+                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;
 
                         Ok(None)
                     }
-- 
2.43.0


From 5550e6a260557ae0143c7db231983dfebf310e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 09/21] fix: reset the whole receiver context at the start of a
 message

The destination and the reply locators of the previous message stayed in
force.
---
 src/messages/receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 7a28448..38049af 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -129,6 +131,8 @@ impl Decoder for MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                // Nothing of the previous message may stay in force
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-- 
2.43.0


From 39307b3c7a810d2d7e986c98b610aa189474ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/21] fix: discard the rest of an invalid message

After a rejected header or a malformed submessage the bytes that followed were
decoded as if nothing had happened.
---
 src/messages/receiver.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 38049af..93d2843 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -124,7 +124,7 @@ impl Decoder for MessageReceiver {
             return Ok(None);
         }
 
-        match self.state {
+        let result = match self.state {
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
                 &bytes.split_to(<Header as Readable<Endianness>>::minimum_bytes_needed()),
@@ -324,7 +324,14 @@ impl Decoder for MessageReceiver {
                 })
                 .or_else(|err| Err(err.into()))
             }
+        };
+
+        if result.is_err() {
+            // The rest of an invalid message is discarded
+            bytes.clear();
+            self.state = DeserializationState::ReadingHeader;
         }
+        result
     }
 }
 
-- 
2.43.0


From 0ee4071171aefd4b3ae47d00eb028991c01fb0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/21] fix: reject bit sets of more than 256 bits

The declared number of bits overflowed when rounded up to words, or sized an
allocation, whatever the bytes that followed.
---
 src/common/bit_set.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..1d0152e 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -3,6 +3,9 @@ use bit_vec::BitVec;
 use speedy::{Context, Readable, Reader, Writable, Writer};
 use std::ops::{Deref, DerefMut};
 
+/// The number of bits a set may hold on the wire is limited by the protocol
+const MAX_NUMBER_OF_BITS: u32 = 256;
+
 #[derive(Debug, PartialEq)]
 pub struct BitSetRef(BitSet<u32>);
 
@@ -34,6 +37,9 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
+        if number_of_bits > MAX_NUMBER_OF_BITS {
+            return Err(speedy::Error::custom("Too many bits in a bit set").into());
+        }
         let number_of_bytes = (number_of_bits + 31) / 32;
 
         let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
-- 
2.43.0


From 82a78f3caebde18c35fa46a72994a1db967f5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 12/21] fix: let a decoded bit set have the members it was sent
 with

Its storage was filled but its length stayed zero, so iterating it yielded
nothing and inserting into it lost members.
---
 src/common/bit_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 1d0152e..c07934c 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -48,7 +48,10 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
             for _ in 0..number_of_bytes {
                 inner.push(reader.read_u32()?);
             }
+            bit_vec.set_len(number_of_bytes as usize * 32);
         }
+        // The bits beyond the declared number are not members
+        bit_vec.truncate(number_of_bits as usize);
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
     }
-- 
2.43.0


From 018ffe6dd04722d12c6e3c3d469617be64de883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 13/21] fix: do not panic when iterating a set that reaches
 beyond the number range

---
 src/common/ranged_bit_set.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..6cfe73e 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,10 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    // A set from the wire may denote values beyond the range of B
+                    if let Some(value) = B::from_usize(i).and_then(|i| i.checked_add(&self.base)) {
+                        return Some(value);
+                    }
                 }
             }
         }
-- 
2.43.0


From 5fd40d6c19cfb06a875d503bf6822fc9f0bbd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 14/21] fix: tell the minimum size of a locator

Without it a locator list that claims more elements than can follow sized an
allocation, and aborted the process when that failed.
---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 3555877b3f7c128be2f490ef2dfa1d63c11d2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 15/21] fix: pad parameters to a multiple of four bytes

The padding was length % 4 instead of what is missing to a multiple of four, a
value too long for the length field was written with a truncated length, and an
empty parameter (four bytes) could not be read back.
---
 src/messages/submessage_elements/parameter.rs | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 77299be..3c8e983 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -1,5 +1,6 @@
 use crate::structure::parameter_id::ParameterId;
 use speedy::{Context, Readable, Reader, Writable, Writer};
+use std::convert::TryFrom;
 
 #[derive(Debug, PartialEq)]
 pub struct Parameter {
@@ -10,14 +11,19 @@ pub struct Parameter {
     value: Vec<u8>,
 }
 
+/// Number of bytes that pad a value to a multiple of four bytes
+fn alignment(length: usize) -> usize {
+    (4 - length % 4) % 4
+}
+
 impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = alignment(length);
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -32,7 +38,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
@@ -42,8 +48,10 @@ impl<C: Context> Writable<C> for Parameter {
         writer.write_value(&self.parameter_id)?;
 
         let length = self.value.len();
-        let alignment = length % 4;
-        writer.write_u16((length + alignment) as u16)?;
+        let alignment = alignment(length);
+        let padded_length = u16::try_from(length + alignment)
+            .map_err(|_| speedy::Error::custom("Too long parameter value"))?;
+        writer.write_u16(padded_length)?;
 
         for byte in &self.value {
             writer.write_u8(*byte)?;
-- 
2.43.0


From 0e8b3a5a4b67efbf822a69afb891c0af2639fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 16/21] fix: convert times outside the common range without
 wrapping or panicking

A system time beyond 2^31-1 seconds wrapped to an earlier or negative time, and
a negative time other than TIME_INVALID panicked.
---
 src/structure/time.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..4e30828 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -37,10 +37,12 @@ impl From<SystemTime> for Time_t {
             .duration_since(std::time::UNIX_EPOCH)
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
-                    fraction: fraction as u32,
-                })
+                Ok(i32::try_from(dur_since_epoch.as_secs())
+                    .map(|seconds| Time_t {
+                        seconds,
+                        fraction: fraction as u32,
+                    })
+                    .unwrap_or(Time_t::TIME_INVALID))
             })
             .unwrap_or(Time_t::TIME_INVALID)
     }
@@ -53,8 +55,10 @@ impl TryFrom<Time_t> for SystemTime {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
             _ => {
+                let seconds = u64::try_from(time.seconds)
+                    .map_err(|_| "Conversion from a Time_t before the epoch")?;
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
-                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
+                Ok(std::time::UNIX_EPOCH + Duration::new(seconds, fraction as u32))
             }
         }
     }
-- 
2.43.0


From 5f1902ddcd3c894d847bd8c446619a6bdc7a07d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 17/21] fix: convert durations outside the common range without
 wrapping or panicking

A duration beyond 2^31-1 seconds wrapped, and a negative protocol duration with
a large fraction (such as DURATION_INVALID) panicked.
---
 src/structure/duration.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..866c7fd 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -1,5 +1,5 @@
 use speedy::{Readable, Writable};
-use std::convert::From;
+use std::convert::{From, TryFrom};
 use std::time::Duration;
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
@@ -25,16 +25,22 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
-        Duration_t {
-            seconds: duration.as_secs() as i32,
-            fraction: duration.subsec_nanos() as u32,
+        match i32::try_from(duration.as_secs()) {
+            Ok(seconds) => Duration_t {
+                seconds,
+                fraction: duration.subsec_nanos() as u32,
+            },
+            Err(_) => Duration_t::DURATION_INFINITE,
         }
     }
 }
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
-        Duration::new(duration.seconds as u64, duration.fraction)
+        match u64::try_from(duration.seconds) {
+            Ok(seconds) => Duration::new(seconds, duration.fraction),
+            Err(_) => Duration::new(0, 0), // a standard duration cannot be negative
+        }
     }
 }
 
-- 
2.43.0


From b9d94655accae4987d22d6281e0a0be2f0a8619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 18/21] fix: do not truncate the port of a locator to 16 bits

A locator with a port beyond 65535 became the address of some other port.
---
 src/structure/locator.rs        |  4 ++++
 src/structure/locator_udp_v4.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index fa5d345..2f5b88e 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -53,6 +53,10 @@ impl From<SocketAddr> for Locator_t {
 impl From<Locator_t> for SocketAddr {
     fn from(locator: Locator_t) -> Self {
         match locator.kind {
+            // There is no socket address with such a port
+            _ if locator.port > u32::from(u16::MAX) => {
+                SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0)
+            }
             LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                 IpAddr::V4(Ipv4Addr::new(
                     locator.address[12],
diff --git a/src/structure/locator_udp_v4.rs b/src/structure/locator_udp_v4.rs
index e47e448..817e72f 100644
--- a/src/structure/locator_udp_v4.rs
+++ b/src/structure/locator_udp_v4.rs
@@ -1,4 +1,5 @@
 use speedy::{Readable, Writable};
+use std::convert::TryFrom;
 use std::net::{Ipv4Addr, SocketAddrV4};
 
 /// Specialization of Locator_t used to hold UDP IPv4 locators using a more
@@ -32,10 +33,11 @@ impl From<SocketAddrV4> for LocatorUDPv4_t {
 
 impl From<LocatorUDPv4_t> for SocketAddrV4 {
     fn from(locator_udp_v4: LocatorUDPv4_t) -> Self {
-        SocketAddrV4::new(
-            Ipv4Addr::from(locator_udp_v4.address),
-            locator_udp_v4.port as u16,
-        )
+        match u16::try_from(locator_udp_v4.port) {
+            Ok(port) => SocketAddrV4::new(Ipv4Addr::from(locator_udp_v4.address), port),
+            // There is no socket address with such a port
+            Err(_) => SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0),
+        }
     }
 }
 
-- 
2.43.0


From 2d2d382c8f49d8b07f8c3f98c121e9a46b9562d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 19/21] fix: decode everything at hand before asking for more
 bytes

None from Decoder::decode tells the caller to wait for more bytes. It was
also returned after a message header, an interpreter submessage, padding or
an unsupported submessage, so submessages that had already arrived stayed
undecoded until something else arrived.
---
 src/messages/receiver.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 93d2843..22b1317 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -111,6 +111,21 @@ impl Decoder for MessageReceiver {
     type Error = std::io::Error;
 
     fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        // `None` tells the caller to come back with more bytes, so everything
+        // that has arrived is decoded before
+        loop {
+            let length = bytes.len();
+            let item = self.decode_next(bytes)?;
+            if item.is_some() || bytes.len() == length {
+                return Ok(item);
+            }
+        }
+    }
+}
+
+impl MessageReceiver {
+    /// Decodes the message header or the submessage that comes next
+    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {
         let validate_header = |header: Header| {
             if header.valid() {
                 Ok(header)
-- 
2.43.0


From 13c00cc68d856250f7f6a12c4f4409daff0c8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 20/21] fix: end the message at the end of its datagram

At the end of the input (which is how tokio's UDP framing hands over each
datagram) the receiver kept waiting for a submessage, so the header of the
next datagram was taken for one, and a truncated message was reported again
and again as its bytes were never discarded.
---
 src/messages/receiver.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 22b1317..9aaf47e 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -121,6 +121,19 @@ impl Decoder for MessageReceiver {
             }
         }
     }
+
+    /// No more bytes follow: the message ends here, as at the end of a datagram
+    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        let item = self.decode(bytes)?;
+        if item.is_none() {
+            self.state = DeserializationState::ReadingHeader;
+            if !bytes.is_empty() {
+                bytes.clear();
+                return Err(Error::new(ErrorKind::InvalidData, "Truncated message"));
+            }
+        }
+        Ok(item)
+    }
 }
 
 impl MessageReceiver {
-- 
2.43.0


From e8004bc53a9ea0e12d863e9d7e39e90d696c97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 21/21] Verification hook: StatefulWriter's registry starts as
 its type's default

---
 src/behavior/stateful_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 44ec426..0f66375 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -85,7 +85,7 @@ impl StatefulWriter {
         writer: WriterAttributes,
     ) -> Self {
         StatefulWriter {
-            matched_readers: Vec::new(),
+            matched_readers: Default::default(),
             entity,
             endpoint,
             writer,
-- 
2.43.0

