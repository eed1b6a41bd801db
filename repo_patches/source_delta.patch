From 3c737180fd24ba11d546641601ba1a2a245bbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 01/21] fix: take() dropped the enclosing limit when asked for
 at least as much

take(len) with len >= the current limit set no limit of its own, so the next
reset_limit() removed the enclosing one instead. A property section that ends
exactly at the end of the packet, or claims to reach past it, then removed the
limit of the packet: lists were read on into the next packet.
---
 src/byte_reader.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..d7f1e3b 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -48,15 +48,17 @@ impl<R: Read> ByteReader<R> {
 
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
+    /// a limit never reaches further than the one that encloses it
     pub fn take(&mut self, len: u32) {
-        if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
+        self.curr_limit = match self.curr_limit {
+            Some(l) => {
+                let len = len.min(l);
+                // push alread subtracted number
+                self.read_limits.push(l - len);
+                Some(len)
             }
-            // push alread subtracted number
-            self.read_limits.push(l - len);
-        }
-        self.curr_limit = Some(len);
+            None => Some(len),
+        };
     }
 
     // this function tracks the curr_limit and imitates behaviour
@@ -184,6 +186,8 @@ impl<R: Read> ByteReader<R> {
 
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
+        // the properties have to end inside of the packet
+        self.ensure_limit(length)?;
         if length > 0 {
             self.take(length);
         }
-- 
2.43.0


From e474eada9a91c827e0ec8185b3d2f0598c5bdb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 02/21] fix: discard exactly the rest of the packet after every
 decode

An error inside of a property section only discarded that section and left the
limit of the packet set, bytes behind the last field of a good packet were not
discarded at all, and a stream that ended inside of a packet left its limit set
forever. In all three cases the following packets were read at the wrong place.
---
 src/byte_reader.rs | 22 ++++++++++++++++++++--
 src/packet.rs      | 16 +++++++++-------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index d7f1e3b..05a38a0 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -28,9 +28,9 @@ impl<R: Read> ByteReader<R> {
         let fixed = match fixed {
             Err(e) => {
                 if let Ok(len) = length {
+                    let depth = self.depth();
                     self.take(len);
-                    self.consume()?;
-                    self.reset_limit();
+                    let _ = self.discard(depth);
                 }
                 return Err(e);
             }
@@ -91,6 +91,24 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// number of limits that are set
+    pub(crate) fn depth(&self) -> usize {
+        self.read_limits.len() + self.curr_limit.is_some() as usize
+    }
+
+    /// skips what is left inside of all limits above `depth` and
+    /// removes those limits, even if the source ends or fails
+    pub(crate) fn discard(&mut self, depth: usize) -> Res<()> {
+        let mut res = Ok(());
+        while self.depth() > depth {
+            if res.is_ok() {
+                res = self.consume().map(|_| ());
+            }
+            self.reset_limit();
+        }
+        res
+    }
+
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
         let mut buf = vec![0; len as usize];
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..dcae825 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -167,15 +167,17 @@ impl<R: io::Read> PacketDecoder<R> {
     ///
     /// ```
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
+        let depth = self.reader.depth();
         let (length, fixed) = self.reader.read_header()?;
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.consume()?;
-        }
-        self.reader.reset_limit();
-        dec
+        // skip whatever was not read, an error may have left the limit
+        // of a property section behind as well
+        // TODO: this should probably return an Error that indicates some
+        // critical failure
+        let rest = self.reader.discard(depth);
+        let packet = dec?;
+        rest?;
+        Ok(packet)
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From b1354e82272a54f60e4d36bb04c0219b026b13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 03/21] fix: has_more() took a failing or interrupted source
 for the end of a packet

Inside of a limit the remaining length decides. Lists and property sections that
were cut off by the end of the stream or by an I/O error were accepted as
complete. An interrupted read is retried, as everywhere else.
---
 src/byte_reader.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 05a38a0..03d935d 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -1,5 +1,5 @@
 use crate::structure::*;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
@@ -190,15 +190,18 @@ impl<R: Read> ByteReader<R> {
     }
 
     pub fn has_more(&mut self) -> bool {
-        // if curr_limit is anything other than Some(0)
-        // rely on fill_buf
-        if let Some(0) = self.curr_limit {
-            return false;
+        // inside of a limit there is more until the limit is reached. If the
+        // source ends or fails before that, reading has to report it
+        if let Some(n) = self.curr_limit {
+            return n > 0;
         }
         // TODO: switch to a better way to do this
-        match self.reader.fill_buf() {
-            Ok(v) => !v.is_empty(),
-            Err(_) => false,
+        loop {
+            match self.reader.fill_buf() {
+                Ok(v) => return !v.is_empty(),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(_) => return false,
+            }
         }
     }
 
-- 
2.43.0


From fbfd21bd991ae28e65172e31ae174fee3cae25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 04/21] fix: refuse a variable byte integer that does not end
 after four bytes

---
 src/byte_reader.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 03d935d..91a4792 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -180,13 +180,10 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        Err(format!("Invalid variable int {}", num))
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From fdc057f63b168c5e635697b62536f5832310f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 05/21] fix: do not allocate the announced length of a packet
 before it arrives

Five bytes were enough to make the decoder allocate 256 MB. The buffer now grows
with the bytes received.
---
 src/byte_reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 91a4792..1a0e438 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -3,6 +3,8 @@ use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
+// longer reads grow the buffer along with the received bytes
+static MAX_RESERVE: u32 = 4096;
 
 pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
@@ -111,12 +113,14 @@ impl<R: Read> ByteReader<R> {
 
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
-        let mut buf = vec![0; len as usize];
-        match self.reader.read_exact(&mut buf) {
-            Ok(_) => {
+        // only reserve memory for what was actually received
+        let mut buf = Vec::with_capacity(len.min(MAX_RESERVE) as usize);
+        match self.reader.by_ref().take(len as u64).read_to_end(&mut buf) {
+            Ok(n) if n == len as usize => {
                 self.limit(len);
                 Ok(buf)
             }
+            Ok(n) => Err(format!("Failed to read {} bytes. Got only {}", len, n)),
             Err(e) => Err(format!("Failed to read {} bytes. Reason: {:?}", len, e)),
         }
     }
-- 
2.43.0


From f603e17c22a16ed44fd71ce17e9797684fa63be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 06/21] fix: accept DISCONNECT and AUTH with reason code or
 properties left out

MQTT 5, 3.14.2.1, 3.14.2.2.1 and 3.15.2.1: a remaining length of 0 means success
(normal disconnection), and one of 1 a DISCONNECT without properties.
---
 src/auth.rs       |  7 ++++++-
 src/disconnect.rs | 12 +++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..76d4fd2 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,11 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties can be left out if it is 0x00 (Success)
+        // and there are no properties (3.15.2.1)
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..6725e36 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,13 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, may be left out
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From f39b88e238d3af6eee67e9112ba8e9210eaf54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 07/21] fix: encode property objects without any property as
 length 0

An object without properties was written as 1, 0 (one property byte, code 0),
and user properties without any value lost their length byte altogether.
---
 src/mqtt_writer.rs          | 12 ++++++------
 src/structure/properties.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..dafa9e8 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -97,13 +97,17 @@ impl MqttWriter {
 
     pub fn encode_variable_num(mut length: u32) -> Vec<u8> {
         let mut v = Vec::<u8>::with_capacity(4);
-        while length > 0 {
+        // 0 is encoded as one byte as well
+        loop {
             let mut next = length % 128;
             length /= 128;
             if length > 0 {
                 next |= 0x80;
             }
             v.push(next as u8);
+            if length == 0 {
+                break;
+            }
         }
         v
     }
@@ -112,11 +116,7 @@ impl MqttWriter {
         if num > VARBYTEINT_MAX {
             return Err(format!("Invalid variable int {}", num));
         }
-        let mut encoded = if num == 0 {
-            vec![0]
-        } else {
-            Self::encode_variable_num(num)
-        };
+        let mut encoded = Self::encode_variable_num(num);
         self.buf.append(&mut encoded);
         Ok(())
     }
diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..fc521e4 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -16,7 +16,7 @@ pub(crate) trait Properties: Sized {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         let pairs = self.to_pairs()?;
         if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
+            return Ok(vec![]); // empty properties
         }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
-- 
2.43.0


From ac6ca16efce65a0f80bf360419408c14e7eb86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 08/21] fix: count the reason code in the length of PUBACK,
 PUBREC, PUBREL, PUBCOMP

---
 src/confirmation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..2c216ca 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,10 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            // reason code and properties
+            (Some(_), _) => length += 1 + properties_data.len() + props_len.len(),
+            // neither exists before mqtt 5
+            (None, _) => {}
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From 21a84815ce1bc2dcfd2a1502d5d6d8a2b3545742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 09/21] fix: refuse to encode a will without topic

The topic was written as an empty string but not counted in the packet length.
---
 src/connect.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..b0d2fe8 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -82,13 +82,12 @@ impl Packet for ConnectPacket {
             will_retain = *retain;
             will_qos = Some(qos);
             // It must have non-empty topic
-            // add topic length if any
-            if let Some(t) = topic.as_ref() {
-                if t.is_empty() {
-                    return Err("Not allowed to use empty will topic".to_string());
+            match topic.as_ref() {
+                Some(t) if !t.is_empty() => {
+                    will_topic = t;
+                    length += t.len() + 2;
                 }
-                will_topic = t;
-                length += t.len() + 2;
+                _ => return Err("Not allowed to use empty will topic".to_string()),
             }
             // Payload
             length += 2; // payload length
-- 
2.43.0


From 9705f3f0f1409880a98d39a68711d425a06af411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 10/21] fix: refuse QoS 3 in PUBLISH (encoding) and in wills
 (both ways)

Larger values also spilled into the neighbouring flag bits.
---
 src/connect.rs | 7 +++++++
 src/publish.rs | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index b0d2fe8..355b25d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -78,6 +78,9 @@ impl Packet for ConnectPacket {
                 qos,
                 retain,
             } = will;
+            if *qos > 2 {
+                return Err("Will QoS must be <= 2".to_string());
+            }
             has_will = true;
             will_retain = *retain;
             will_qos = Some(qos);
@@ -277,6 +280,10 @@ impl ConnectFlags {
         }
         let connect_flags = ConnectFlags::new(connect_flags);
 
+        if connect_flags.will_qos > 2 {
+            // A value of 3 (0x03) is a Malformed Packet [MQTT-3.1.2-12]
+            return Err("Will QoS must be <= 2".to_string());
+        }
         if !connect_flags.will {
             if connect_flags.will_retain {
                 return Err(
diff --git a/src/publish.rs b/src/publish.rs
index 766e571..19bd228 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -61,6 +61,10 @@ impl Packet for PublishPacket {
         // Get the payload length
         length += payload.len();
 
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
+
         // Message ID must a number if qos > 0
         if *qos > 0 {
             if message_id.is_none() {
-- 
2.43.0


From 249d2be246657f2b11d31e698f8c38b1db9b9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 11/21] fix: refuse strings and binary data longer than 65535
 bytes

The length prefix was cut to 16 bits while all bytes were written.
---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 45 +++++++++++++++++++++++++++------------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 355b25d..3da329b 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -151,24 +151,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index dafa9e8..3980072 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?;
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?;
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?;
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?;
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -121,29 +121,38 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
-        for b in s.bytes() {
-            self.buf.push(b);
+    // strings and binary data carry their length in two bytes
+    fn write_len(&mut self, len: usize) -> Res<()> {
+        if len > u16::MAX as usize {
+            return Err(format!("Field of {} bytes is too long, must be <= 65535", len));
         }
+        self.write_u16(len as u16);
+        Ok(())
+    }
+
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_utf8_str(&s)
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_vec(s);
+        Ok(())
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_slice(s);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 19bd228..ce17fde 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -90,7 +90,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..1372b9e 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -127,7 +127,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..bc61530 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -34,7 +34,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From e9146aaa76bf23c8000ce6bcc9c2590397101996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 12/21] fix: refuse packets of 4 GiB and more

Their length was cut to 32 bits before it was checked.
---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 8 ++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index 76d4fd2..3174c99 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index 2c216ca..9525eac 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -243,7 +243,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..cc04b4c 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index 3da329b..39ecffb 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -128,7 +128,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 6725e36..2b76840 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -46,7 +46,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // reason code in header
         if protocol_version == 5 && self.reason_code.is_some() {
             writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index 3980072..8420ac3 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -121,6 +121,14 @@ impl MqttWriter {
         Ok(())
     }
 
+    /// writes the remaining length of a packet
+    pub fn write_length(&mut self, length: usize) -> Res<()> {
+        if length > VARBYTEINT_MAX as usize {
+            return Err(format!("Invalid packet length {}", length));
+        }
+        self.write_variable_num(length as u32)
+    }
+
     // strings and binary data carry their length in two bytes
     fn write_len(&mut self, len: usize) -> Res<()> {
         if len > u16::MAX as usize {
diff --git a/src/publish.rs b/src/publish.rs
index ce17fde..3ac488c 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -87,7 +87,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..208d07f 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -100,7 +100,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 1372b9e..709ad49 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -117,7 +117,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..4bba7fc 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -21,7 +21,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index bc61530..47ff9c2 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -24,7 +24,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0


From a1bce99a0956a5937771379ff6070292534f5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 13/21] fix: refuse to encode SUBSCRIBE, UNSUBSCRIBE and SUBACK
 without payload

Every receiver has to reject them, this crate included.
---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 3 +++
 src/unsubscribe.rs | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/suback.rs b/src/suback.rs
index 208d07f..e3fd27e 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Malformed suback, no payload specified".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 709ad49..65092c9 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -91,6 +91,9 @@ impl Packet for SubscribePacket {
         let mut length = 2;
 
         // check subscriptions
+        if self.subscriptions.is_empty() {
+            return Err("Malformed subscribe, no payload specified".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 47ff9c2..4c9a191 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -9,6 +9,10 @@ impl Packet for UnsubscribePacket {
     // Check message ID
     let mut length = 2;
 
+    if self.unsubscriptions.is_empty() {
+      return Err("Malformed unsubscribe, no payload specified".to_string());
+    }
+
     // add length of unsubscriptions
     length += self
       .unsubscriptions
-- 
2.43.0


From 4fb4fc934e08235cebc8e06ac83966fec5a334a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 14/21] fix: do not write reason codes into an UNSUBACK before
 version 5

---
 src/unsuback.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 4bba7fc..e4fd062 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,13 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
-        // add length of unsubscriptions
-        length += self.granted.len();
+        // add length of unsubscriptions, mqtt 5 only
+        let granted: &[UnsubackCode] = if protocol_version == 5 {
+            &self.granted
+        } else {
+            &[]
+        };
+        length += granted.len();
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,7 +35,7 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
+        for g in granted.iter() {
             writer.write_u8(g.to_byte());
         }
         Ok(writer.into_vec())
-- 
2.43.0


From d4ca7a1cd0c4cba3e15fb3e1e6f033cbe750513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 15/21] fix: write reason code 0 for a version 5 DISCONNECT
 without one

The byte was left out but counted in the packet length.
---
 src/disconnect.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 2b76840..fae4c30 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -48,8 +48,9 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_length(length)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            let code = self.reason_code.as_ref();
+            writer.write_u8(code.map_or(0, |code| code.to_byte()));
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From b2e4285f73c10e69726c6273fd72fa61b6505bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 16/21] fix: reject properties that are repeated without
 permission

---
 src/byte_reader.rs          | 11 ++++++++++-
 src/structure/properties.rs |  9 ++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 1a0e438..5a25545 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -256,10 +256,19 @@ impl<R: Read> ByteReader<R> {
         }
         let mut user_properties = UserProperties::new();
         // let mut subscription_identifiers = vec![];
+        // one bit for each property code, the largest code is 0x2A
+        let mut seen = 0u64;
 
-        // TODO: return Err when key is repeated, but not allowed to
         while self.has_more() {
             let prop = self.decode_property()?;
+            // only user properties can always be repeated, subscription identifiers
+            // depend on the packet type
+            if prop.0 != 0x26 && prop.0 != 0x0B {
+                if seen & (1 << prop.0) != 0 {
+                    return Err(format!("Property must not be repeated: {}", prop.0));
+                }
+                seen |= 1 << prop.0;
+            }
             match prop {
                 (0x26, PropType::Pair(k, v)) => {
                     let p = user_properties.entry(k).or_insert_with(Vec::new);
diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index fc521e4..f0b5547 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -200,17 +200,20 @@ pub struct SubscribeProperties {
 
 impl Properties for SubscribeProperties {
     fn from_properties(props: Vec<(u8, PropType)>) -> Res<SubscribeProperties> {
-        let mut subscription_identifier = 0;
+        let mut subscription_identifier = None;
         let mut user_properties = UserProperties::new();
         for p in props {
             match p {
-                (0x0B, PropType::VarInt(v)) => subscription_identifier = v,
+                // must not be repeated in SUBSCRIBE
+                (0x0B, PropType::VarInt(v)) if subscription_identifier.is_none() => {
+                    subscription_identifier = Some(v)
+                }
                 (0x26, PropType::Map(v)) => user_properties = v,
                 s => return Err(format!("Failed to parse subscribe properties {:?}", s)),
             }
         }
         Ok(SubscribeProperties {
-            subscription_identifier,
+            subscription_identifier: subscription_identifier.unwrap_or(0),
             user_properties,
         })
     }
-- 
2.43.0


From 620e42f9b7d25b57b2820558a05a6d2639ba046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 17/21] fix: CONNACK properties that are absent mean that the
 feature is available

MQTT 5, 3.2.2.3.11 to 3.2.2.3.13: wildcard subscriptions, subscription identifiers
and shared subscriptions are supported unless the property says 0.
---
 src/structure/properties.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index f0b5547..1b86117 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -412,9 +412,9 @@ impl Default for ConnackProperties {
             maximum_qos: 2,
             // retained messages available by default
             retain_available: true,
-            wildcard_subscription_available: false,
-            subscription_identifiers_available: false,
-            shared_subscription_available: false,
+            wildcard_subscription_available: true,
+            subscription_identifiers_available: true,
+            shared_subscription_available: true,
         }
     }
 }
-- 
2.43.0


From 424ea4865428ee4298fdeeefa874e6ccf63cda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 18/21] fix: set the mandatory flag bits when encoding a PUBREL
 header

---
 src/structure/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure/common.rs b/src/structure/common.rs
index 6076842..3a83e18 100644
--- a/src/structure/common.rs
+++ b/src/structure/common.rs
@@ -216,7 +216,7 @@ impl FixedHeader {
             PacketType::Publish => {
                 message_type | ((self.dup as u8) << 3) | (self.qos << 1) | self.retain as u8
             }
-            PacketType::Unsubscribe | PacketType::Subscribe => {
+            PacketType::Unsubscribe | PacketType::Subscribe | PacketType::Pubrel => {
                 message_type | 2 // Bits 3,2,1 and 0 need to ALWAYS be set to 0, 0, 1, 0 respectively
             }
             _ => message_type,
-- 
2.43.0


From b574ccfaf12ed41b4569b66dd6ee519f482032e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 19/21] fix: leave out maximum QoS 2 from CONNACK properties

A value of 2 is a protocol error, it is expressed by leaving the property out.
---
 src/structure/properties.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 1b86117..2646d44 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -485,9 +485,12 @@ impl Properties for ConnackProperties {
         // if let v = self.topic_alias_maximum {
         out.push((0x22, PropType::U16(self.topic_alias_maximum)));
         // }
-        // if let v = self.maximum_qos {
-        out.push((0x24, PropType::U8(self.maximum_qos)));
-        // }
+        // only 0 and 1 are allowed, 2 is what an absent property means (3.2.2.3.4)
+        match self.maximum_qos {
+            0 | 1 => out.push((0x24, PropType::U8(self.maximum_qos))),
+            2 => {}
+            v => return Err(format!("Invalid maximum_qos: {}", v)),
+        }
         // if let v = self.retain_available {
         out.push((0x25, PropType::Bool(self.retain_available)));
         // }
-- 
2.43.0


From 43dc0f3a8126ee12e1270059d15f23a9689c3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 20/21] fix: refuse confirmations of other types before version
 5, as in version 5

They were encoded as a malformed packet of that other type.
---
 src/confirmation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index 9525eac..344580f 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -211,8 +211,14 @@ impl Packet for ConfirmationPacket {
                     ))
                 }
             }
-        } else {
+        } else if let PacketType::Puback
+        | PacketType::Pubrec
+        | PacketType::Pubrel
+        | PacketType::Pubcomp = cmd
+        {
             None
+        } else {
+            return Err(format!("Invalid confirmation type {:?}", cmd));
         };
 
         // properies mqtt 5
-- 
2.43.0


From 2a6cf4f39d9c34dff6b782de8b11334d910da140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 21/21] fix: encode what version 5 allows: password only, no
 client id, topic alias

MQTT 5, 3.1.2.9, 3.1.3.1 and 3.3.2.3.4: a password without user name, an empty
client id without clean start and an empty topic along with a topic alias.
---
 src/connect.rs | 8 +++++---
 src/publish.rs | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 39ecffb..caa2719 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -39,8 +39,9 @@ impl Packet for ConnectPacket {
             return Err("Invalid protocol version".to_string());
         }
 
-        // ClientId might be omitted in 3.1.1 and 5, but only if cleanSession is set to 1
-        if (client_id.is_empty() && protocol_version >= 4 && *clean_session)
+        // ClientId might be omitted in 5 and in 3.1.1, but there only if cleanSession is set to 1
+        if (client_id.is_empty() && protocol_version == 4 && *clean_session)
+            || protocol_version == 5
             || !client_id.is_empty()
         {
             length += client_id.len() + 2;
@@ -117,7 +118,8 @@ impl Packet for ConnectPacket {
         // Password
         let mut has_password = false;
         if let Some(pass) = &password {
-            if !has_username {
+            // allowed since version 5
+            if !has_username && protocol_version < 5 {
                 return Err("Username is required to use password".to_string());
             }
             has_password = true;
diff --git a/src/publish.rs b/src/publish.rs
index 3ac488c..a73fd75 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -52,9 +52,11 @@ impl Packet for PublishPacket {
             retain,
         } = &self;
 
-        // Topic must be a non-empty string or Buffer
+        // Topic must be a non-empty string or Buffer, unless an alias replaces it (mqtt 5)
         length += 2 + topic.len();
-        if topic.is_empty() {
+        let has_alias = protocol_version == 5
+            && properties.as_ref().map_or(false, |p| p.topic_alias.is_some());
+        if topic.is_empty() && !has_alias {
             return Err("Invalid topic".to_string());
         }
 
-- 
2.43.0

