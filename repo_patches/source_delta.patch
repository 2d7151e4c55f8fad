From 21ada7d6714f8d645a99fe87837a307fc0cb90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 01/30] fix: send packets whole when the socket accepts only
 part of a write

PacketChannel::write_packet ignored the length returned by write(), so a
short or interrupted write truncated the request and the session hung.
---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..5b08041 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -35,7 +35,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 10b1bd819a66aec4e537c5ec5595b4d41b1a5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 02/30] fix: report an empty packet as an error instead of
 panicking

Every caller of read_packet indexes the first byte of the packet.
---
 src/packet_channel.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 5b08041..459e932 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -28,6 +28,14 @@ impl PacketChannel {
         let mut packet: Vec<u8> = vec![0; packet_size as usize];
         self.stream.read_exact(&mut packet)?;
 
+        if packet.is_empty() {
+            // Every packet starts with a byte which tells its type.
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "The server sent an empty packet",
+            ));
+        }
+
         Ok((packet, seq_num))
     }
 
-- 
2.43.0


From fb85fff771063c9632f5fe0efe4d636e8706807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:10 +0000
Subject: [PATCH 03/30] fix: keep a partly received packet when a read fails

read_exact discards what it has read when it times out. The next call then
took the middle of that packet for a packet header and could yield invented
events. It also reserved the announced size before any byte had arrived.
---
 src/packet_channel.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 459e932..24c2c30 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -7,6 +7,8 @@ use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
     stream: TcpStream,
+    /// Part of a packet received before a read failed.
+    buffer: Vec<u8>,
 }
 
 impl PacketChannel {
@@ -15,18 +17,20 @@ impl PacketChannel {
         let stream = TcpStream::connect(address)?;
         let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
         stream.set_read_timeout(Some(read_timeout))?;
-        Ok(Self { stream })
+        Ok(Self {
+            stream,
+            buffer: Vec::new(),
+        })
     }
 
     pub fn read_packet(&mut self) -> Result<(Vec<u8>, u8), io::Error> {
-        let mut header_buffer = [0; PACKET_HEADER_SIZE];
+        self.fill_buffer(PACKET_HEADER_SIZE)?;
+        let packet_size = (&self.buffer[0..3]).read_u24::<LittleEndian>()?;
+        let seq_num = self.buffer[3];
 
-        self.stream.read_exact(&mut header_buffer)?;
-        let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
-        let seq_num = header_buffer[3];
-
-        let mut packet: Vec<u8> = vec![0; packet_size as usize];
-        self.stream.read_exact(&mut packet)?;
+        self.fill_buffer(PACKET_HEADER_SIZE + packet_size as usize)?;
+        let packet = self.buffer.split_off(PACKET_HEADER_SIZE);
+        self.buffer.clear();
 
         if packet.is_empty() {
             // Every packet starts with a byte which tells its type.
@@ -39,6 +43,17 @@ impl PacketChannel {
         Ok((packet, seq_num))
     }
 
+    /// Reads until the buffer has the specified size. After an error the buffer keeps what was
+    /// received, so the next call continues with the same packet.
+    fn fill_buffer(&mut self, size: usize) -> Result<(), io::Error> {
+        let missing = size.saturating_sub(self.buffer.len()) as u64;
+        (&self.stream).take(missing).read_to_end(&mut self.buffer)?;
+        if self.buffer.len() < size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(())
+    }
+
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
-- 
2.43.0


From 5064d3d1e1c5eeef069dc1662a901fa307cb6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 04/30] fix: report a server error in the middle of a result
 set

The loop which skips column definitions ignored error packets and waited for
an end of file packet which never comes.
---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..e0ae329 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -74,6 +74,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From ce10a5367ee0b87b515b256ec0eb41a32ec67c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 05/30] fix: do not panic on result sets without the expected
 cells

---
 src/configure.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index e0ae329..e4f9a25 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
 
         let result_set = self.read_result_set(channel)?;
-        if result_set.len() != 1 {
+        if result_set.len() != 1 || result_set[0].cells.len() < 2 {
             return Err(Error::String(
                 "Could not read master binlog position.".to_string(),
             ));
@@ -61,7 +61,12 @@ impl BinlogClient {
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
+        match result_set.first().and_then(|row| row.cells.first()) {
+            Some(name) => Ok(ChecksumType::from_name(name)?),
+            None => Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            )),
+        }
     }
 
     fn read_result_set(
-- 
2.43.0


From ea6149c16d437d937d57aaf99462cf61d1926600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:11 +0000
Subject: [PATCH 06/30] fix: authenticate accounts without a password

The server expects an empty response, not the hash of an empty string.
---
 src/extensions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..4557934 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // No password is told to the server by an empty response.
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From 47564af01ff0164b6a22de034ce4d5a3a2580382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:11 +0000
Subject: [PATCH 07/30] fix: read the final reply of caching_sha2_password fast
 authentication

After 'fast authentication succeeded' the server sends an OK or ERR packet.
It was left unread, so every later reply was taken for the previous one's.
A direct OK packet after a plugin switch was taken as a request for full
authentication.
---
 src/connect.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..514c217 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -117,7 +117,14 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
+        // The server knows the password hash and sends the result in the next packet.
+        if packet.starts_with(&[0x01, 0x03]) {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From a9329199266e3beefc4a16ca61f116a55b998108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:11 +0000
Subject: [PATCH 08/30] fix: compute the caching_sha2_password response in the
 right order

The scramble follows the double hash: XOR(SHA256(password),
SHA256(SHA256(SHA256(password)) + scramble)). With the wrong order the
server's password cache never matched.
---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 4557934..494da16 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -22,7 +22,7 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From 9c429ce701bc879eb4d97ada14a2012784f87f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 09/30] fix: resume MySQL GTID replication by the GTID set
 alone

After commits the recorded file name and position were sent with the GTID
set. The server then starts at that place: after a disconnect within a
transaction the rest of it arrives without its GTID event, and a server
which does not have the file (failover) refuses.
---
 src/providers/mysql/mysql_provider.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..87c325f 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants::FIRST_EVENT_POSITION;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,11 +13,10 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
-            let command = DumpBinlogGtidCommand::new(
-                server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
-            );
+            // The server finds the file by the GtidSet. With a file name it would start there,
+            // possibly in the middle of a transaction or in a file of another server.
+            let command =
+                DumpBinlogGtidCommand::new(server_id, String::new(), FIRST_EVENT_POSITION as u32);
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
             return Err(Error::String("GtidSet was not specified".to_string()));
-- 
2.43.0


From 418bc9a6ddde8dad56d23cb44fb743d618fd0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:23 +0000
Subject: [PATCH 10/30] fix: record a MariaDB transaction only when it ends

A MariaDB GTID event stands in for BEGIN, so the first query event of a
statement based transaction (or a SAVEPOINT of a row based one) was taken for
an auto-committed query and the transaction was recorded before its end.
---
 src/binlog_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..9f3ba2a 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -74,6 +74,8 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // The event replaces BEGIN unless the group is a standalone query like DDL.
+                self.transaction = x.flags & 1 == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From 4bbc3d582bc411c95d8ccfa756773c3b11be2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 11/30] fix: record XA transactions when they end

'XA START' was taken for an auto-committed query, so a transaction was
recorded before its first row. In MariaDB 'XA COMMIT' may come in a group
without the standalone flag; the prepared part ends with XA_PREPARE_LOG_EVENT.
---
 src/binlog_client.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 9f3ba2a..ce4ff7b 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -3,6 +3,7 @@ use crate::constants::database_provider::DatabaseProvider;
 use crate::errors::Error;
 use crate::events::binlog_event::BinlogEvent;
 use crate::events::event_header::EventHeader;
+use crate::events::event_type::EventType;
 use crate::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
 use crate::providers::mariadb::mariadb_provider::replicate_mariadb;
 use crate::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
@@ -62,11 +63,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -87,15 +88,23 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START") {
                     self.transaction = true;
-                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
+                } else if x.sql_statement == "COMMIT"
+                    || x.sql_statement == "ROLLBACK"
+                    || x.sql_statement.starts_with("XA COMMIT")
+                    || x.sql_statement.starts_with("XA ROLLBACK")
+                {
                     self.commit_gtid();
                 } else if !self.transaction {
                     // Auto-commit query like DDL
                     self.commit_gtid();
                 }
             }
+            // The first part of an XA transaction ends when it is prepared
+            BinlogEvent::UnknownEvent if header.event_type == EventType::MySqlXaPrepare as u8 => {
+                self.commit_gtid();
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 451d961afdbdbbe2928726ab45fd2ca6d9f6d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:58 +0000
Subject: [PATCH 12/30] fix: normalize parsed GTID sets

Intervals in any order, overlapping intervals and repeated source ids are
valid GTID text. They were kept as written (a repeated source id replaced the
earlier one): the server rejects unordered intervals, added ids landed in the
wrong place, and listed transactions were lost.
---
 src/providers/mysql/gtid/gtid_set.rs | 7 ++++++-
 src/providers/mysql/gtid/uuid_set.rs | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..e759979 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -50,6 +50,11 @@ impl GtidSet {
                 };
                 intervals.push(interval);
             }
+
+            // The same source may be listed several times
+            if let Some(uuid_set) = result.remove(&source_id.uuid) {
+                intervals.extend(uuid_set.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..0a36209 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
-            left.end = right_end;
+        if right_start <= left.end + 1 {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From f5de14ccf0548da96755a56838df69f2bce7ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 13/30] fix: accept upper case source ids and reject short ones

An upper case uuid is the same source. It was a different key in GtidSet, so
the source got two entries and the server rejected the set or resent
transactions. A uuid of the wrong length panicked.
---
 src/providers/mysql/gtid/uuid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..28a5baf 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -25,9 +25,13 @@ impl Uuid {
         let vec = hex::decode(hex)?;
 
         let mut data = [0u8; 16];
-        (0..16).for_each(|i| data[i] = vec[i]);
+        if vec.len() != data.len() {
+            return Err(Error::String(format!("Invalid uuid format {}", uuid)));
+        }
+        data.copy_from_slice(&vec);
 
-        Ok(Self { data, uuid })
+        // Ids of received events are compared with the text in its normal form
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From 0d3df5e4e019c4789c1aa41ee75d397274273a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 14/30] fix: reject malformed MariaDB GTID text instead of
 panicking

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 001735a06ef89cab301371ae7431735bf916a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:59 +0000
Subject: [PATCH 15/30] fix: parse GTID sets with undashed source ids and
 spaces

Both are valid text for the server.
---
 src/providers/mysql/gtid/gtid_set.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index e759979..0ad16ef 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -6,8 +6,6 @@ use crate::providers::mysql::gtid::uuid_set::UuidSet;
 use std::collections::HashMap;
 use std::fmt;
 
-const UUID_LENGTH: usize = 36;
-
 /// Represents GtidSet from MySQL 5.6 and above.
 /// <a href="https://dev.mysql.com/doc/refman/8.0/en/replication-gtids-concepts.html">See more</a>
 #[derive(Debug)]
@@ -34,15 +32,17 @@ impl GtidSet {
 
         let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
-            let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
-            let source_id = Uuid::parse(source_id)?;
+            let mut tokens = uuid_set.split(':').map(|x| x.trim());
+            let source_id = Uuid::parse(tokens.next().unwrap_or_default().to_string())?;
 
             let mut intervals = Vec::new();
-            let ranges: String = uuid_set.chars().skip(UUID_LENGTH + 1).collect();
-            let ranges = ranges.split(':').collect::<Vec<&str>>();
+            let ranges = tokens.collect::<Vec<&str>>();
+            if ranges.is_empty() {
+                return Err(Error::String(format!("Invalid format {}", uuid_set)));
+            }
 
             for token in ranges {
-                let range = token.split('-').collect::<Vec<&str>>();
+                let range = token.split('-').map(|x| x.trim()).collect::<Vec<&str>>();
                 let interval = match range.len() {
                     1 => Interval::new(range[0].parse()?, range[0].parse()?),
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
-- 
2.43.0


From 505843ba9115cba12535e624a7202ded9203e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:59 +0000
Subject: [PATCH 16/30] fix: do not record a position between the rows events
 of a statement

Resuming there fails: the table definitions precede the recorded position, so
every reconnect reports a missing TableMapEvent and replication never
proceeds.
---
 src/binlog_client.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index ce4ff7b..753d231 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -12,6 +12,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// Flag of the last rows event of a statement
+const STATEMENT_END: u16 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -110,11 +113,14 @@ impl BinlogClient {
     }
 
     fn update_binlog_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        // Rows event depends on preceding TableMapEvent & we change the position
-        // after we read them atomically to prevent missing mapping on reconnect.
-        // Figure out something better as TableMapEvent can be followed by several row events.
+        // Rows events depend on preceding TableMapEvents & we change the position after we read
+        // them atomically to prevent missing mapping on reconnect. A TableMapEvent can be followed
+        // by several rows events, the last one of a statement is flagged.
         match event {
             BinlogEvent::TableMapEvent(_) => return,
+            BinlogEvent::WriteRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
+            BinlogEvent::UpdateRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
+            BinlogEvent::DeleteRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
-- 
2.43.0


From f61e873ecc0861a9c20c47653e4448281c479c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 17/30] fix: keep a partly read event when reading a binlog
 file fails

read_exact discards what it has read when it fails. After a read error, or
when the end of a file still being written was reached within an event, the
next call took the middle of that event for a header and yielded invented
events. The announced size was also reserved before reading anything.
---
 src/binlog_reader.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..49c509d 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -13,7 +13,8 @@ const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0
 pub struct BinlogReader {
     stream: File,
     parser: EventParser,
-    payload_buffer: Vec<u8>,
+    /// Part of the current event which has been read so far.
+    event_buffer: Vec<u8>,
 }
 
 impl BinlogReader {
@@ -28,7 +29,7 @@ impl BinlogReader {
         Ok(Self {
             stream,
             parser: EventParser::new(),
-            payload_buffer: vec![0; constants::PAYLOAD_BUFFER_SIZE],
+            event_buffer: Vec::with_capacity(constants::PAYLOAD_BUFFER_SIZE),
         })
     }
 
@@ -38,24 +39,27 @@ impl BinlogReader {
 
     pub fn read_event(&mut self) -> Result<(EventHeader, BinlogEvent), Error> {
         // Parse header
-        let mut header_buffer = [0; EVENT_HEADER_SIZE];
-        self.stream.read_exact(&mut header_buffer)?;
-        let header = EventHeader::parse(&header_buffer)?;
+        self.fill_buffer(EVENT_HEADER_SIZE)?;
+        let header = EventHeader::parse(&self.event_buffer)?;
 
-        let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
-        if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
-            let mut vec: Vec<u8> = vec![0; payload_length];
+        self.fill_buffer(header.event_length as usize)?;
+        let slice = &self.event_buffer[EVENT_HEADER_SIZE..];
+        let result = self.parser.parse_event(&header, slice);
 
-            self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
-            Ok((header, binlog_event))
-        } else {
-            let slice = &mut self.payload_buffer[0..payload_length];
+        self.event_buffer.clear();
+        self.event_buffer.shrink_to(constants::PAYLOAD_BUFFER_SIZE);
+        Ok((header, result?))
+    }
 
-            self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
-            Ok((header, binlog_event))
+    /// Reads until the buffer has the specified size. After an error the buffer keeps what was
+    /// read, so the next call continues with the same event.
+    fn fill_buffer(&mut self, size: usize) -> Result<(), Error> {
+        let missing = size.saturating_sub(self.event_buffer.len()) as u64;
+        (&self.stream).take(missing).read_to_end(&mut self.event_buffer)?;
+        if self.event_buffer.len() < size {
+            return Err(Error::IoError(ErrorKind::UnexpectedEof.into()));
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5267b158df1e551cf279e946eaf6213349320c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 18/30] fix: report an undecodable event in a binlog file as an
 error

Decoding an event which is too short fails with an unexpected end of its
data. That was taken for the end of the file and ended the iteration silently,
dropping all the following events.
---
 src/binlog_reader.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 49c509d..00046a5 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -38,11 +38,21 @@ impl BinlogReader {
     }
 
     pub fn read_event(&mut self) -> Result<(EventHeader, BinlogEvent), Error> {
+        let header = self.fill_event()?;
+        self.parse_event(header)
+    }
+
+    /// Reads the next event as a whole
+    fn fill_event(&mut self) -> Result<EventHeader, Error> {
         // Parse header
         self.fill_buffer(EVENT_HEADER_SIZE)?;
         let header = EventHeader::parse(&self.event_buffer)?;
 
         self.fill_buffer(header.event_length as usize)?;
+        Ok(header)
+    }
+
+    fn parse_event(&mut self, header: EventHeader) -> Result<(EventHeader, BinlogEvent), Error> {
         let slice = &self.event_buffer[EVENT_HEADER_SIZE..];
         let result = self.parser.parse_event(&header, slice);
 
@@ -67,14 +77,10 @@ impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.read_event();
-        if let Err(error) = &result {
-            if let Error::IoError(io_error) = error {
-                if let ErrorKind::UnexpectedEof = io_error.kind() {
-                    return None;
-                }
-            }
+        match self.fill_event() {
+            Ok(header) => Some(self.parse_event(header)),
+            Err(Error::IoError(error)) if error.kind() == ErrorKind::UnexpectedEof => None,
+            Err(error) => Some(Err(error)),
         }
-        Some(result)
     }
 }
-- 
2.43.0


From 5dd0158f4cf89a2a22ee395db6d600b9968e9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 19/30] fix: reject an event length below the header size

It panicked (or wrapped around and tried to reserve memory for it).
---
 src/binlog_reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 00046a5..0b262ff 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -15,6 +15,7 @@ pub struct BinlogReader {
     parser: EventParser,
     /// Part of the current event which has been read so far.
     event_buffer: Vec<u8>,
+    corrupted: bool,
 }
 
 impl BinlogReader {
@@ -30,6 +31,7 @@ impl BinlogReader {
             stream,
             parser: EventParser::new(),
             event_buffer: Vec::with_capacity(constants::PAYLOAD_BUFFER_SIZE),
+            corrupted: false,
         })
     }
 
@@ -47,6 +49,11 @@ impl BinlogReader {
         // Parse header
         self.fill_buffer(EVENT_HEADER_SIZE)?;
         let header = EventHeader::parse(&self.event_buffer)?;
+        if (header.event_length as usize) < EVENT_HEADER_SIZE {
+            // It is not known where the next event begins.
+            self.corrupted = true;
+            return Err(Error::String("Invalid event length".to_string()));
+        }
 
         self.fill_buffer(header.event_length as usize)?;
         Ok(header)
@@ -77,6 +84,9 @@ impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.corrupted {
+            return None;
+        }
         match self.fill_event() {
             Ok(header) => Some(self.parse_event(header)),
             Err(Error::IoError(error)) if error.kind() == ErrorKind::UnexpectedEof => None,
-- 
2.43.0


From 4fd344e859464ea6ed826761c5ddc7389e6f0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 20/30] fix: reject events too short to contain their checksum

It panicked.
---
 src/events/event_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..bfc8de4 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -22,6 +22,8 @@ use crate::providers::mysql::events::prev_gtids_event::PreviousGtidsEvent;
 use std::collections::HashMap;
 use std::io::Cursor;
 
+const CHECKSUM_SIZE: usize = 4;
+
 pub struct EventParser {
     /// Gets checksum algorithm type used in a binlog file.
     pub checksum_type: ChecksumType,
@@ -46,7 +48,10 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 => match slice.len().checked_sub(CHECKSUM_SIZE) {
+                Some(length) => Cursor::new(&slice[0..length]),
+                None => return Err(Error::String("Event has no checksum".to_string())),
+            },
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
-- 
2.43.0


From 0bd5e4495e01b95135c8bfe747e33dae5f38c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:35 +0000
Subject: [PATCH 21/30] fix: do not panic on format descriptions with odd
 lengths

---
 src/events/format_description_event.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..76424d2 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,10 +46,16 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_payload_length = header
+            .event_length
+            .wrapping_sub(constants::EVENT_HEADER_SIZE as u32);
+        if payload_length != event_payload_length as u8 {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
+            if skip < 0 {
+                return Err(Error::String("Invalid format description".to_string()));
+            }
 
             cursor.seek(SeekFrom::Current(skip))?;
             checksum_type = ChecksumType::from_code(cursor.read_u8()?)?;
-- 
2.43.0


From 974debbb1a1673b1080ac5e0ce5b909fdcc803a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 22/30] fix: check announced lengths before using them

Lengths of strings, blobs, bitmaps and column lists were used to reserve
memory before it was known that the data is there, so a damaged length could
abort the process. Sizes of enums, sets and blob lengths outside 1..8 bytes
panicked.
---
 src/events/row_events/col_parser.rs | 10 ++++------
 src/events/row_events/row_parser.rs | 10 +++-------
 src/events/table_map_event.rs       |  7 +++----
 src/extensions.rs                   | 30 ++++++++++++++++++++++++++---
 src/metadata/table_metadata.rs      |  7 +++----
 5 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..2466aa9 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,8 +1,8 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{read_bitmap_big_endian, read_bytes, read_string, read_uint};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::Cursor;
 
 pub fn parse_string(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let length = if metadata < 256 {
@@ -21,10 +21,8 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
-    let mut vec = vec![0; length];
-    cursor.read_exact(&mut vec)?;
-    Ok(vec)
+    let length = read_uint(cursor, metadata as usize)? as usize;
+    Ok(read_bytes(cursor, length)?)
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..e3f862f 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_uint};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -148,12 +148,8 @@ fn parse_cell(
         ColumnType::VarString => MySqlValue::String(parse_string(cursor, metadata)?),
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
-        ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
-        }
-        ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
-        }
+        ColumnType::Enum => MySqlValue::Enum(read_uint(cursor, metadata as usize)? as u32),
+        ColumnType::Set => MySqlValue::Set(read_uint(cursor, metadata as usize)?),
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
         ColumnType::MediumBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..b1b6df9 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,9 +1,9 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{read_bitmap_little_endian, read_bytes, read_len_enc_num, read_string};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Seek, SeekFrom};
 
 /// The event has table defition for row events.
 /// <a href="https://mariadb.com/kb/en/library/table_map_event/">See more</a>
@@ -50,8 +50,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
-        let mut column_types = vec![0u8; columns_number];
-        cursor.read_exact(&mut column_types)?;
+        let column_types = read_bytes(cursor, columns_number)?;
 
         let _metadata_length = read_len_enc_num(cursor)?;
         let column_metadata = TableMapEvent::parse_metadata(cursor, &column_types)?;
diff --git a/src/extensions.rs b/src/extensions.rs
index 494da16..18c1435 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -65,9 +65,31 @@ pub fn write_null_term_string(
 }
 
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    Ok(String::from_utf8(read_bytes(cursor, size)?)?)
+}
+
+/// Reads bytes. Reserves memory only if they are there.
+pub fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, io::Error> {
+    check_remaining(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
-    Ok(String::from_utf8(vec)?)
+    Ok(vec)
+}
+
+/// Reads an integer which has the specified number of little-endian bytes
+pub fn read_uint(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<u64, Error> {
+    if size < 1 || size > 8 {
+        return Err(Error::String(format!("Invalid integer size: {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size)?)
+}
+
+fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let length = cursor.get_ref().len() as u64;
+    if length.saturating_sub(cursor.position()) < size as u64 {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(())
 }
 
 pub fn read_len_enc_str(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
@@ -106,8 +128,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -126,8 +149,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..5136a20 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,10 +1,10 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{read_bytes, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
-use std::io::{self, Cursor, Read};
+use std::io::{self, Cursor};
 
 /// Contains metadata for table columns.
 /// <a href="https://dev.mysql.com/doc/dev/mysql-server/latest/classbinary__log_1_1Table__map__event.html">See more</a>
@@ -66,8 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
-            let mut metadata = vec![0u8; metadata_length];
-            cursor.read_exact(&mut metadata)?;
+            let metadata = read_bytes(cursor, metadata_length)?;
 
             let mut buffer = Cursor::new(metadata.as_slice());
             match metadata_type {
-- 
2.43.0


From 72d83fcb695a15ec83a0ebfad8a1bf51773e6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:42 +0000
Subject: [PATCH 23/30] fix: do not panic or loop on row events which do not
 fit their table

A row event with fewer columns than its table definition panicked; one
without any included column was read forever, using up all memory.
---
 src/events/row_events/row_parser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index e3f862f..207d081 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -35,10 +35,13 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns(table, columns_present)?;
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let position = cursor.position();
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
+        check_progress(cursor, position)?;
     }
     Ok(rows)
 }
@@ -55,10 +58,13 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns(table, columns_before_update)?;
+    check_columns(table, columns_after_update)?;
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let position = cursor.position();
         let row_before_update = parse_row(
             cursor,
             table,
@@ -72,6 +78,7 @@ pub fn parse_update_row_data_list(
             cells_included_after_update,
         )?;
         rows.push(UpdateRowData::new(row_before_update, row_after_update));
+        check_progress(cursor, position)?;
     }
     Ok(rows)
 }
@@ -179,6 +186,23 @@ fn parse_cell(
     Ok(value)
 }
 
+fn check_columns(table: &TableMapEvent, columns_present: &Vec<bool>) -> Result<(), Error> {
+    if columns_present.len() != table.column_types.len() {
+        return Err(Error::String(
+            "Row event doesn't match the number of columns in its table".to_string(),
+        ));
+    }
+    Ok(())
+}
+
+/// A row which takes no bytes would be read forever.
+fn check_progress(cursor: &Cursor<&[u8]>, position: u64) -> Result<(), Error> {
+    if cursor.position() == position {
+        return Err(Error::String("Row event has rows without columns".to_string()));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
-- 
2.43.0


From e144a1a499998750eeaf51a83a2a2bf0ba2e881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:43 +0000
Subject: [PATCH 24/30] fix: reject impossible decimal and temporal column
 definitions

They panicked when a row was decoded.
---
 src/events/row_events/col_parser.rs | 6 ++++++
 src/events/row_events/decimal.rs    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 2466aa9..cf2f4af 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -156,6 +156,12 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > 6 {
+        return Err(Error::String(format!(
+            "Invalid fractional seconds precision: {}",
+            metadata
+        )));
+    }
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..9f755c3 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Invalid decimal precision {} and scale {}",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
-- 
2.43.0


From 845dcd187410196f623d39bb8c125c51312f9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 25/30] fix: do not overflow on extreme ids and sequence
 numbers from the server

Transaction ids and interval ends at the limits of their type, packet sequence
number 255 and an empty scramble panicked.
---
 src/commands/dump_binlog_gtid_command.rs      |  2 +-
 src/connect.rs                                | 27 ++++++++++++++-----
 src/events/row_events/row_parser.rs           |  4 ++-
 .../mysql/events/prev_gtids_event.rs          |  3 +++
 src/providers/mysql/gtid/uuid_set.rs          |  6 ++---
 5 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..1a0e106 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,7 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                cursor.write_u64::<LittleEndian>(interval.end.saturating_add(1))?;
             }
         }
 
diff --git a/src/connect.rs b/src/connect.rs
index 514c217..6c6e527 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,12 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(
+            &mut channel,
+            &handshake,
+            auth_plugin,
+            seq_num.wrapping_add(1),
+        )?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +50,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +66,12 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(
+                    channel,
+                    switch_packet,
+                    seq_num.wrapping_add(1),
+                    use_ssl,
+                )?;
                 Ok(())
             }
             _ => {
@@ -69,7 +79,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +110,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -146,6 +156,11 @@ impl BinlogClient {
 
         // Extract public key.
         let public_key = &packet[1..];
+        if scramble.is_empty() {
+            return Err(Error::String(
+                "The server didn't send a scramble for the password".to_string(),
+            ));
+        }
         let encrypted_password = xor(&password, &scramble.as_bytes());
 
         let rsa = Rsa::public_key_from_pem(public_key)?;
@@ -156,7 +171,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 207d081..8e3877a 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -198,7 +198,9 @@ fn check_columns(table: &TableMapEvent, columns_present: &Vec<bool>) -> Result<(
 /// A row which takes no bytes would be read forever.
 fn check_progress(cursor: &Cursor<&[u8]>, position: u64) -> Result<(), Error> {
     if cursor.position() == position {
-        return Err(Error::String("Row event has rows without columns".to_string()));
+        return Err(Error::String(
+            "Row event has rows without columns".to_string(),
+        ));
     }
     Ok(())
 }
diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..678b7b9 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,9 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String("Invalid interval of gtids".to_string()));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 0a36209..aaeb4a5 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -38,10 +38,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if interval.start == gtid.transaction_id.saturating_add(1) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.saturating_add(1) == gtid.transaction_id {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
@@ -89,7 +89,7 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if right_start <= left.end + 1 {
+        if right_start <= left.end.saturating_add(1) {
             left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
-- 
2.43.0


From e5bae8a5067bddb6aa265257ae7b138a5c1d9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 26/30] fix: report server errors whose text is not UTF-8

---
 src/responses/error_packet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/responses/error_packet.rs b/src/responses/error_packet.rs
index a635fbe..bff552c 100644
--- a/src/responses/error_packet.rs
+++ b/src/responses/error_packet.rs
@@ -16,8 +16,10 @@ impl ErrorPacket {
 
         let error_code = cursor.read_u16::<LittleEndian>()?;
 
-        let mut error_message = String::new();
-        cursor.read_to_string(&mut error_message)?;
+        // The text is not necessarily in UTF-8, e.g. before the character set is negotiated.
+        let mut error_message = Vec::new();
+        cursor.read_to_end(&mut error_message)?;
+        let mut error_message = String::from_utf8_lossy(&error_message).into_owned();
 
         let mut sql_state = None;
         if error_message.starts_with('#') {
-- 
2.43.0


From cfe0292e3cf8377fea5a15cb7e6e28188883e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 27/30] fix: keep the position inside a statement on rows
 events that aren't parsed

---
 src/binlog_client.rs     |  6 ++++++
 src/events/event_type.rs | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 753d231..28a77a4 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -121,6 +121,12 @@ impl BinlogClient {
             BinlogEvent::WriteRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
             BinlogEvent::UpdateRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
             BinlogEvent::DeleteRowsEvent(x) if x.flags & STATEMENT_END == 0 => return,
+            // It's not known whether a rows event that isn't parsed is the last one.
+            BinlogEvent::UnknownEvent
+                if EventType::from_code(header.event_type).is_unparsed_rows_event() =>
+            {
+                return
+            }
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
diff --git a/src/events/event_type.rs b/src/events/event_type.rs
index 5b38a6f..8536026 100644
--- a/src/events/event_type.rs
+++ b/src/events/event_type.rs
@@ -67,6 +67,9 @@ pub enum EventType {
     /// Identifies <see cref="XaPrepareEvent"/> in MySQL from 5.6 to 8.0.
     MySqlXaPrepare = 38,
 
+    /// Identifies PartialUpdateRowsEvent in MySQL 8.0.
+    MySqlPartialUpdateRowsEvent = 39,
+
     /// MariaDB specific events
     /// Identifies <see cref="RowsQueryEvent"/> in MariaDB.
     MariaDbAnnotateRowsEvent = 160,
@@ -82,6 +85,14 @@ pub enum EventType {
 
     /// Identifies encryption start event in MariaDB.
     MariaDbStartEncryptionEvent = 164,
+
+    /// Identifies compressed rows events in MariaDB.
+    MariaDbWriteRowsCompressedEventV1 = 166,
+    MariaDbUpdateRowsCompressedEventV1 = 167,
+    MariaDbDeleteRowsCompressedEventV1 = 168,
+    MariaDbWriteRowsCompressedEvent = 169,
+    MariaDbUpdateRowsCompressedEvent = 170,
+    MariaDbDeleteRowsCompressedEvent = 171,
 }
 
 impl EventType {
@@ -107,12 +118,33 @@ impl EventType {
             33 => EventType::MySqlGtidEvent,
             35 => EventType::MySqlPreviousGtidsEvent,
             38 => EventType::MySqlXaPrepare,
+            39 => EventType::MySqlPartialUpdateRowsEvent,
             160 => EventType::MariaDbAnnotateRowsEvent,
             161 => EventType::MariaDbBinlogCheckpointEvent,
             162 => EventType::MariaDbGtidEvent,
             163 => EventType::MariaDbGtidListEvent,
             164 => EventType::MariaDbStartEncryptionEvent,
+            166 => EventType::MariaDbWriteRowsCompressedEventV1,
+            167 => EventType::MariaDbUpdateRowsCompressedEventV1,
+            168 => EventType::MariaDbDeleteRowsCompressedEventV1,
+            169 => EventType::MariaDbWriteRowsCompressedEvent,
+            170 => EventType::MariaDbUpdateRowsCompressedEvent,
+            171 => EventType::MariaDbDeleteRowsCompressedEvent,
             _ => EventType::Unknown,
         }
     }
+
+    /// Rows events which are not parsed: their flags & rows are not available.
+    pub fn is_unparsed_rows_event(&self) -> bool {
+        matches!(
+            self,
+            EventType::MySqlPartialUpdateRowsEvent
+                | EventType::MariaDbWriteRowsCompressedEventV1
+                | EventType::MariaDbUpdateRowsCompressedEventV1
+                | EventType::MariaDbDeleteRowsCompressedEventV1
+                | EventType::MariaDbWriteRowsCompressedEvent
+                | EventType::MariaDbUpdateRowsCompressedEvent
+                | EventType::MariaDbDeleteRowsCompressedEvent
+        )
+    }
 }
-- 
2.43.0


From ea635b49e5a52737a63c07d38b7fbeceac3fd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:36 +0000
Subject: [PATCH 28/30] fix: record the GTID of compressed transactions and
 statements

---
 src/binlog_client.rs     | 13 +++++++++----
 src/events/event_type.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 28a77a4..b114053 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -104,10 +104,15 @@ impl BinlogClient {
                     self.commit_gtid();
                 }
             }
-            // The first part of an XA transaction ends when it is prepared
-            BinlogEvent::UnknownEvent if header.event_type == EventType::MySqlXaPrepare as u8 => {
-                self.commit_gtid();
-            }
+            BinlogEvent::UnknownEvent => match EventType::from_code(header.event_type) {
+                // The first part of an XA transaction ends when it is prepared
+                EventType::MySqlXaPrepare => self.commit_gtid(),
+                // The event holds the whole transaction
+                EventType::MySqlTransactionPayloadEvent => self.commit_gtid(),
+                // Auto-commit query like DDL
+                EventType::MariaDbQueryCompressedEvent if !self.transaction => self.commit_gtid(),
+                _ => {}
+            },
             _ => {}
         }
     }
diff --git a/src/events/event_type.rs b/src/events/event_type.rs
index 8536026..7f0af91 100644
--- a/src/events/event_type.rs
+++ b/src/events/event_type.rs
@@ -70,6 +70,9 @@ pub enum EventType {
     /// Identifies PartialUpdateRowsEvent in MySQL 8.0.
     MySqlPartialUpdateRowsEvent = 39,
 
+    /// Identifies TransactionPayloadEvent, a compressed transaction in MySQL 8.0.
+    MySqlTransactionPayloadEvent = 40,
+
     /// MariaDB specific events
     /// Identifies <see cref="RowsQueryEvent"/> in MariaDB.
     MariaDbAnnotateRowsEvent = 160,
@@ -86,6 +89,9 @@ pub enum EventType {
     /// Identifies encryption start event in MariaDB.
     MariaDbStartEncryptionEvent = 164,
 
+    /// Identifies compressed query event in MariaDB.
+    MariaDbQueryCompressedEvent = 165,
+
     /// Identifies compressed rows events in MariaDB.
     MariaDbWriteRowsCompressedEventV1 = 166,
     MariaDbUpdateRowsCompressedEventV1 = 167,
@@ -119,11 +125,13 @@ impl EventType {
             35 => EventType::MySqlPreviousGtidsEvent,
             38 => EventType::MySqlXaPrepare,
             39 => EventType::MySqlPartialUpdateRowsEvent,
+            40 => EventType::MySqlTransactionPayloadEvent,
             160 => EventType::MariaDbAnnotateRowsEvent,
             161 => EventType::MariaDbBinlogCheckpointEvent,
             162 => EventType::MariaDbGtidEvent,
             163 => EventType::MariaDbGtidListEvent,
             164 => EventType::MariaDbStartEncryptionEvent,
+            165 => EventType::MariaDbQueryCompressedEvent,
             166 => EventType::MariaDbWriteRowsCompressedEventV1,
             167 => EventType::MariaDbUpdateRowsCompressedEventV1,
             168 => EventType::MariaDbDeleteRowsCompressedEventV1,
-- 
2.43.0


From 6a0fbfeef550d88e578321e633e9b2d7c68c28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 29/30] fix: detect a server that stops reading in the middle
 of a request

---
 src/packet_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 24c2c30..feff1a1 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -17,6 +17,7 @@ impl PacketChannel {
         let stream = TcpStream::connect(address)?;
         let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
         stream.set_read_timeout(Some(read_timeout))?;
+        stream.set_write_timeout(Some(read_timeout))?;
         Ok(Self {
             stream,
             buffer: Vec::new(),
-- 
2.43.0


From 2cfd58f55a78e414431aa4cbb4f4f9c4bd24de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:35 +0000
Subject: [PATCH 30/30] fix: forget the table definitions of a binlog file when
 it ends

Servers give a table a new id whenever they open it again, so a long-running
stream collected definitions without bound.
---
 src/events/event_parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index bfc8de4..2f69ecf 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -123,6 +123,11 @@ impl EventParser {
             self.table_map.insert(x.table_id, x.clone()); //todo: optimize
         }
 
+        // Row events and the definitions of their tables are written to the same binlog file.
+        if let BinlogEvent::RotateEvent(_) = &binlog_event {
+            self.table_map.clear();
+        }
+
         Ok(binlog_event)
     }
 }
-- 
2.43.0

