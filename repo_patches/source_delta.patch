From 38f199ef32247317654ab3f9e73af9625340f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 01/20] fix: reject bulk and map lengths whose size computation
 overflows

---
 app/roster/src/application/server/frame/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..095c6a2 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -89,7 +89,10 @@ impl Frame {
                     let len: usize = get_decimal_mut(src)?.try_into()?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    let n = len
+                        .checked_add(2)
+                        .ok_or("protocol error; invalid frame format")?;
+                    skip_mut(src, n)
                 }
             }
             b'*' => {
@@ -105,7 +108,10 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
+                let n = len
+                    .checked_mul(2)
+                    .ok_or("protocol error; invalid frame format")?;
+                for _ in 0..n {
                     Frame::check(src)?;
                 }
 
-- 
2.43.0


From 9a56fe82b4cddbb53e2ac83c9d099794d35bd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 02/20] fix: report invalid UTF-8 in simple frames instead of
 panicking

---
 app/roster/src/application/server/frame/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 095c6a2..21b9e8a 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -131,14 +131,16 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid frame format")?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid frame format")?;
 
                 Ok(Frame::Error(string))
             }
-- 
2.43.0


From 398e4e528f28081d2fe01c23f1e921486d0700ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 03/20] fix: hash map frames used as map keys instead of
 panicking

---
 app/roster/src/application/server/frame/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 21b9e8a..0fef26a 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -45,9 +45,11 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
-                // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+            Frame::Map(f0) => {
+                // Equality of maps ignores the order of the entries, so the
+                // only cheap value that equal maps are sure to share is the
+                // number of entries.
+                f0.len().hash(ra_expand_state);
             }
         }
     }
-- 
2.43.0


From e3305e4aec53da3faf431dd98ce2e8eb83df57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 04/20] fix: end only the faulty connection when its handler
 fails

A protocol error, an I/O error or an invalid command of one client made the
connection task panic, which took every other client down with it (and the
whole process where panic=abort). It also skipped `meta_conn.stop()`.
---
 app/roster/src/application/server/server_thread.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..23408f1 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -112,7 +112,6 @@ impl ServerMonoThreadedHandle {
                             dbg!(err.backtrace());
                             dbg!(&err);
                             // error!(?err);
-                            panic!("blbl");
                         }
 
                         meta_conn.stop();
-- 
2.43.0


From 91b070764aed045de06080a527ce2c5d1f98365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 05/20] fix: stop reading frames once the answering side of a
 connection ended

A frame received after a command that ended the connection was sent to a
closed channel, and the `unwrap` panicked.
---
 app/roster/src/application/server/handle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..9bd6716 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,11 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // The answering side only goes away when it failed: there
+                    // is nobody left to answer the following frames.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
-- 
2.43.0


From 172ea985e0a98a8a4a174fc6be0dc8b951929ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 06/20] fix: keep the buffered bytes when a frame needs several
 reads

`read` fills the buffer it is given from its start, so the second read of a
frame split over several segments (or larger than the buffer) overwrote the
bytes already received.
---
 app/roster/src/application/server/connection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..cc59b52 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,16 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // The bytes already buffered are the start of the frame: new data
+            // goes after them, so there must be some room left.
+            let len = in_going.len();
+            if in_going.capacity() - len < 1024 {
+                in_going.reserve(4 * 1024);
+            }
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) = self.stream_r.read(in_going.slice_mut(len..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From 734a45c8d5c4e4574d5fc3c6bed3dd60e0e08f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 07/20] fix: answer ACL CAT with an error instead of panicking

---
 app/roster/src/application/server/cmd/acl/cat.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..9258f69 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,15 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
-
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // TODO: the categories are not described yet.
+        let response = Frame::Error(ByteString::from_static(
+            "ERR ACL CAT is not supported",
+        ));
         dst.write_frame(&response).await?;
+
         Ok(())
-        */
     }
 }
-- 
2.43.0


From 31c397821f88e8510278eada1fbccac1002e8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 08/20] fix: keep line breaks out of simple strings and errors

The name of an unknown command or of a client is sent back as a simple string
or an error; a line break in it made the reply read as several frames.
---
 .../src/application/server/frame/write.rs     | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..9ae4d32 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,6 +1,7 @@
 use std::io;
 use std::io::Cursor;
 
+use bytestring::ByteString;
 use monoio::buf::IoBuf;
 use monoio::io::AsyncWriteRent;
 
@@ -26,6 +27,28 @@ async fn write_decimal(
     Ok(())
 }
 
+/// Write the text of a simple string or of an error.
+///
+/// Such a text ends at the first line break, so the ones it contains are
+/// replaced: they would let the text be read as several frames.
+async fn write_line(
+    buf_w: &mut impl AsyncWriteRent,
+    val: &ByteString,
+) -> io::Result<()> {
+    let mut line = Vec::with_capacity(val.len());
+    for b in val.as_bytes() {
+        match *b {
+            b'\r' | b'\n' => line.push(b' '),
+            b => line.push(b),
+        }
+    }
+
+    buf_w.write(line).await.0?;
+    buf_w.write(b"\r\n").await.0?;
+
+    Ok(())
+}
+
 /// Write a value
 #[async_recursion::async_recursion(?Send)]
 async fn write_value(
@@ -35,13 +58,11 @@ async fn write_value(
     match frame {
         Frame::Simple(val) => {
             buf_w.write(&[b'+']).await.0?;
-            buf_w.write(val.as_bytes().slice(..)).await.0?;
-            buf_w.write(&[b'\r', b'\n']).await.0?;
+            write_line(buf_w, val).await?;
         }
         Frame::Error(val) => {
             buf_w.write(&[b'-']).await.0?;
-            buf_w.write(val.as_bytes().slice(..)).await.0?;
-            buf_w.write(&[b'\r', b'\n']).await.0?;
+            write_line(buf_w, val).await?;
         }
         Frame::Integer(val) => {
             buf_w.write(&[b':']).await.0?;
-- 
2.43.0


From a81bf4455ce762f28aa37936f88468b68eabab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 09/20] fix: let CLIENT SETNAME with an empty string remove the
 name

---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..698000c 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -114,10 +114,10 @@ impl MetadataConnection {
             .store(true, std::sync::atomic::Ordering::Relaxed);
     }
 
-    /// Set the name of the connection
+    /// Set the name of the connection, the empty string removes it.
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        *lock = if name.is_empty() { None } else { Some(name) };
     }
 
     /// Set the name of the connection
-- 
2.43.0


From 29d38b7e5fab002dd6555fb7289a5178b298eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 10/20] fix: refuse the client names that break the format of
 CLIENT LIST

A name with spaces or line breaks let a client forge fields of the replies of
CLIENT LIST and CLIENT INFO.
---
 .../src/application/server/cmd/client/set_name.rs   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..d6ed525 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,18 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
+        // The printable ASCII characters, without the space.
+        let valid = self.name.bytes().all(|b| (b'!'..=b'~').contains(&b));
 
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        let response = if valid {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        } else {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
-- 
2.43.0


From b4ea08e412f95e8baa31f6b13c817d9705e616e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 11/20] fix: bound the expiration of SET to what an instant can
 represent

A time to live of 2^32 seconds or so overflowed the instant it is added to:
the server panicked, or the key expired at once.
---
 app/roster/src/application/server/cmd/set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..cd0acf7 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -52,6 +52,10 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// Longest time to live, which is about 68 years: an instant counts its seconds
+/// on 32 bits.
+const MAX_EXPIRE: Duration = Duration::from_secs(u32::MAX as u64 / 2);
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -124,7 +128,8 @@ impl CommandExecution for Set {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let expired = self.expire.map(|dur| ctx.now() + dur.into());
+        let expired =
+            self.expire.map(|dur| ctx.now() + dur.min(MAX_EXPIRE).into());
 
         // let now = Instant::now();
         let response = match ctx.storage.set_async(
-- 
2.43.0


From ed1bc9ebc0d1815ba4d1551c84322c3b719a2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 12/20] fix: send the replies as a whole, whatever their size

The length returned by `write` was ignored, so what a short write left out of a
large value was lost, and a reply of more than the 8 KiB of the `BufWriter` made
of smaller writes went past the end of its buffer.
---
 .../src/application/server/frame/write.rs     | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 9ae4d32..1006c08 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -2,8 +2,9 @@ use std::io;
 use std::io::Cursor;
 
 use bytestring::ByteString;
-use monoio::buf::IoBuf;
-use monoio::io::AsyncWriteRent;
+use monoio::buf::{IoBuf, IoVecBuf};
+use monoio::io::{AsyncWriteRent, AsyncWriteRentExt};
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
@@ -105,11 +106,40 @@ async fn write_value(
     Ok(())
 }
 
+/// In-memory writer, which takes every buffer as a whole.
+struct Encoder(Vec<u8>);
+
+impl AsyncWriteRent for Encoder {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // SAFETY: `IoBuf` guarantees that many bytes are initialized.
+        let bytes = unsafe { std::slice::from_raw_parts(buf.read_ptr(), len) };
+        self.0.extend_from_slice(bytes);
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        (Err(io::ErrorKind::Unsupported.into()), buf)
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub async fn write_frame(
     buf_w: &mut impl AsyncWriteRent,
     frame: &Frame,
 ) -> io::Result<()> {
-    write_value(buf_w, frame).await?;
+    // The frame is encoded in memory first: a write to a socket is allowed to be
+    // partial, only `write_all` deals with it.
+    let mut encoded = Encoder(Vec::new());
+    write_value(&mut encoded, frame).await?;
+    buf_w.write_all(encoded.0).await.0?;
     // Ensure the encoded frame is written to the socket. The calls above
     // are to the buffered stream and writes. Calling `flush` writes the
     // remaining contents of the buffer to the socket.
-- 
2.43.0


From 6c2cadf5028a8bfd8771adb8d2d0b672f3d5e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 13/20] fix: bound the nesting of the frames sent by a client

Every `*1` of a message takes a stack frame in `Frame::check`: a client could
overflow the stack, which aborts the server.
---
 .../src/application/server/frame/mod.rs       | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 0fef26a..b72aa38 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -12,6 +12,10 @@ use indexmap::IndexMap;
 
 pub(crate) mod write;
 
+/// How many levels of arrays and maps a message may have. Reading a message is
+/// recursive, so the depth must not be up to the client.
+const MAX_DEPTH: usize = 128;
+
 /// A frame in the Redis protocol.
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum Frame {
@@ -69,6 +73,14 @@ pub enum Error {
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, MAX_DEPTH)
+    }
+
+    /// Check a frame which contains at most `depth` levels of frames.
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -99,22 +111,28 @@ impl Frame {
             }
             b'*' => {
                 let len = get_decimal_mut(src)?;
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth)?;
                 }
 
                 Ok(())
             }
             b'%' => {
                 let len = get_decimal_mut(src)?;
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
 
                 // Key and value frames
                 let n = len
                     .checked_mul(2)
                     .ok_or("protocol error; invalid frame format")?;
                 for _ in 0..n {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth)?;
                 }
 
                 Ok(())
-- 
2.43.0


From 274b13e9fc97fb77e9f13a84a969cbb268438002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 14/20] fix: replace the value of a key which is already set

The closure given to `update` returned the new value instead of storing it, so
every SET but the first one was lost. The key could also be removed between the
`insert` and the `update`, losing the value too.
---
 app/roster/src/domain/storage/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..c381890 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,16 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        // The entry is kept locked, so that the value can't be lost between the
+        // lookup of the key and the insertion of the value.
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut oqp) => {
+                Ok(Some(oqp.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(vac) => {
+                vac.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From de0274fd41c6da2b0e187cda8c70bc0064ddada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 15/20] fix: keep serving when a connection can't be accepted

A client gone before `accept`, or the process running out of file descriptors,
panicked the thread and so stopped the server.
---
 .../src/application/server/server_thread.rs   | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 23408f1..75f12a2 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -20,6 +21,9 @@ cfg_if::cfg_if! {
     }
 }
 
+/// How long to wait before accepting connections again after a failure.
+const ACCEPT_RETRY: Duration = Duration::from_millis(10);
+
 /// This structure is used only in a single thread.
 pub struct ServerMonoThreadedHandle {
     config: ServerConfig,
@@ -80,19 +84,30 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
-
-                    let laddr = conn.local_addr()?;
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // The client went away, or there are too many
+                            // opened connections: it shouldn't impact the
+                            // connected clients.
+                            dbg!(&err);
+                            monoio::time::sleep(ACCEPT_RETRY).await;
+                            continue;
+                        }
+                    };
+
+                    let Ok(laddr) = conn.local_addr() else {
+                        continue;
+                    };
+                    if conn.set_nodelay(true).is_err() {
+                        continue;
+                    }
                     let fd = conn.as_raw_fd();
 
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
 
-                    conn.set_nodelay(true).unwrap();
                     let ctx =
                         Context::new(storage, supervisor, meta_conn.clone());
 
-- 
2.43.0


From b773bc8fb0561901e267595304def63e43d3713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 16/20] hook: expose private items to the verification harness
 under cfg(roster_verif)

---
 app/roster/src/application/server/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 8ee156f..c891e5f 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -16,6 +16,15 @@ mod server_thread;
 
 mod supervisor;
 
+/// What the verification harness needs of the private items.
+#[cfg(roster_verif)]
+pub mod verif {
+    pub use super::cmd::{Command, CommandExecution};
+    pub use super::connection::{ReadConnection, WriteConnection};
+    pub use super::frame::write::write_frame;
+    pub use super::supervisor::{MetadataConnection, Supervisor};
+}
+
 use self::server_thread::ServerMonoThreadedHandle;
 use self::supervisor::Supervisor;
 use crate::application::server::handle::ConnectionMsg;
-- 
2.43.0


From cd7c02a57378e97a68831305b4853be8ba48ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 17/20] fix: reject an ACL CAT category which is not a text

---
 app/roster/src/application/server/cmd/acl/cat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index 9258f69..5871b84 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -1,6 +1,6 @@
 use bytestring::ByteString;
 
-use super::super::parse::Parse;
+use super::super::parse::{Parse, ParseError};
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
 use crate::application::server::frame::Frame;
@@ -44,7 +44,12 @@ impl AclCat {
     /// ACL CAT [category]
     /// ```
     pub(crate) fn parse_frames(parse: &mut Parse) -> anyhow::Result<AclCat> {
-        let category = parse.next_string().ok();
+        let category = match parse.next_string() {
+            Ok(category) => Some(category),
+            // The category is optional.
+            Err(ParseError::EndOfStream) => None,
+            Err(err) => return Err(err.into()),
+        };
 
         Ok(AclCat::new(category))
     }
-- 
2.43.0


From 7a44b5dc61636350f3e7f6464c4eb5bcf3085469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 18/20] fix: an attribute of CLIENT SETINFO that is not a
 string is rejected

---
 app/roster/src/application/server/cmd/client/set_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/client/set_info.rs b/app/roster/src/application/server/cmd/client/set_info.rs
index 72858e4..92fb9fb 100644
--- a/app/roster/src/application/server/cmd/client/set_info.rs
+++ b/app/roster/src/application/server/cmd/client/set_info.rs
@@ -82,7 +82,7 @@ impl ClientSetInfo {
                 }
             }
             (Err(ParseError::EndOfStream), _)
-            | (_, Err(ParseError::EndOfStream)) => {
+            | (Ok(_), Err(ParseError::EndOfStream)) => {
                 return Ok(ClientSetInfo::new(lib_name, lib_version))
             }
             (Err(e), _) | (_, Err(e)) => return Err(e.into()),
-- 
2.43.0


From 144f15d777f4df5c3aff6b33731d16e282f1d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 19/20] verification hook: Context, under cfg(roster_verif)

---
 app/roster/src/application/server/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index c891e5f..d67cb27 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -21,6 +21,7 @@ mod supervisor;
 pub mod verif {
     pub use super::cmd::{Command, CommandExecution};
     pub use super::connection::{ReadConnection, WriteConnection};
+    pub use super::context::Context;
     pub use super::frame::write::write_frame;
     pub use super::supervisor::{MetadataConnection, Supervisor};
 }
-- 
2.43.0


From 650dbecbcbd182b4a249059ad268ff82e7aaa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 20/20] fix: a connection is listed once even when the map of
 connections is resized

---
 app/roster/src/application/server/supervisor/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index 698000c..0e558fe 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeMap;
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicBool, AtomicU64};
 use std::sync::Arc;
@@ -66,20 +67,22 @@ impl Supervisor {
 
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
-        let mut result = Vec::new();
+        // A connection can be visited several times, if the map is resized in
+        // the meantime.
+        let mut result = BTreeMap::new();
 
         self.current_connections
-            .scan_async(|_, conn| {
+            .scan_async(|id, conn| {
                 let stopped =
                     conn.stopped.load(std::sync::atomic::Ordering::Relaxed);
 
                 if !stopped && conn.kind == MetadataConnectionKind::Normal {
-                    result.push(conn.clone());
+                    result.insert(*id, conn.clone());
                 }
             })
             .await;
 
-        result
+        result.into_values().collect()
     }
 }
 
-- 
2.43.0

