From 5a8a150c34f2c721df613cd1e99c2a8fc41041b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 01/24] fix: SET must overwrite an existing key, atomically

The closure given to update returned the new value instead of storing it, so
a second SET of a key (and its new expiration) was acknowledged and dropped.
Looking the key up twice also lost a SET racing with the removal of the
expired value by a GET.
---
 app/roster/src/domain/storage/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..1f2200f 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,16 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        // The entry stays locked from the lookup to the write, so a concurrent
+        // removal of an expired value can't discard the new one.
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut oqp) => {
+                Ok(Some(oqp.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(vac) => {
+                let _ = vac.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From df92f0dd38230530d32cc87760353a39b106857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 02/24] fix: keep the incomplete frame when reading more of it

Reading into the connection buffer starts at its beginning, so the bytes of a
frame received so far were overwritten by the next ones, and a frame bigger
than the buffer could not be received at all.
---
 app/roster/src/application/server/connection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..dff7a2f 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,16 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // The incomplete frame has to be kept, so we only read after it.
+            let filled = in_going.len();
+            if in_going.capacity() - filled < 1024 {
+                in_going.reserve(4 * 1024);
+            }
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) =
+                self.stream_r.read(in_going.slice_mut(filled..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From 9f9156c8bd1f693cc4ad7c87a11a98f4fa9876ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 03/24] fix: write the whole frame whatever its size

The result of a partial write was ignored, which truncated replies bigger than
the socket accepts at once, and replies made of pieces adding up to more than
the 8 KiB of the buffered writer overflowed its buffer.
---
 .../src/application/server/frame/write.rs     | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..ae3c287 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,8 +1,9 @@
 use std::io;
 use std::io::Cursor;
 
-use monoio::buf::IoBuf;
-use monoio::io::AsyncWriteRent;
+use monoio::buf::{IoBuf, IoVecBuf};
+use monoio::io::{AsyncWriteRent, AsyncWriteRentExt};
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
@@ -84,11 +85,42 @@ async fn write_value(
     Ok(())
 }
 
+/// Sink which collects an encoded frame in memory.
+struct EncodedFrame(Vec<u8>);
+
+impl AsyncWriteRent for EncodedFrame {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // Safety: the first `bytes_init` bytes of an `IoBuf` are initialized.
+        self.0.extend_from_slice(unsafe {
+            std::slice::from_raw_parts(buf.read_ptr(), len)
+        });
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        (Err(io::ErrorKind::Unsupported.into()), buf)
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub async fn write_frame(
     buf_w: &mut impl AsyncWriteRent,
     frame: &Frame,
 ) -> io::Result<()> {
-    write_value(buf_w, frame).await?;
+    // A single `write` on the stream may write only a part of what it's given,
+    // and the buffered stream doesn't support small writes summing up to more
+    // than its buffer: we encode the whole frame before writing all of it.
+    let mut encoded = EncodedFrame(Vec::new());
+    write_value(&mut encoded, frame).await?;
+    buf_w.write_all(encoded.0).await.0?;
     // Ensure the encoded frame is written to the socket. The calls above
     // are to the buffered stream and writes. Calling `flush` writes the
     // remaining contents of the buffer to the socket.
-- 
2.43.0


From f3b87621834330298f45a9a34e79b3a1ea691b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 04/24] fix: an error on a connection must only end this
 connection

Any protocol error, unsupported option or connection reset panicked, which
stopped the whole server.
---
 app/roster/src/application/server/server_thread.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..452705a 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -108,11 +108,11 @@ impl ServerMonoThreadedHandle {
                             shard,
                         };
 
+                        // An error ends this connection, it must not impact
+                        // any other connected client.
                         if let Err(err) = handler.run(ctx).await {
-                            dbg!(err.backtrace());
                             dbg!(&err);
                             // error!(?err);
-                            panic!("blbl");
                         }
 
                         meta_conn.stop();
-- 
2.43.0


From f1b6dc9b3c383cede050780767981a3874f772cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 05/24] fix: don't panic on frames received after an invalid
 command

When the answering task has ended, the reading task may still receive a frame
before it is told to shut down, and the failed send panicked.
---
 app/roster/src/application/server/handle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..a5e2438 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,11 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // The answering side is gone after an invalid command,
+                    // nothing will handle what follows it.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
-- 
2.43.0


From afcdee1f7232e73b187fb39a0d571fcccf3b5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 06/24] fix: reject simple strings which are not UTF-8 instead
 of panicking

---
 app/roster/src/application/server/frame/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..208b08f 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -125,14 +125,16 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid string")?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid string")?;
 
                 Ok(Frame::Error(string))
             }
-- 
2.43.0


From 0c24e781052e9360da1a80e1cdcbd895a2f63a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 07/24] fix: reject bulk and map lengths which overflow instead
 of panicking

---
 app/roster/src/application/server/frame/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 208b08f..f4e873e 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -87,9 +87,12 @@ impl Frame {
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal_mut(src)?.try_into()?;
+                    let n = len
+                        .checked_add(2)
+                        .ok_or("protocol error; invalid bulk length")?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    skip_mut(src, n)
                 }
             }
             b'*' => {
@@ -105,7 +108,11 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
+                let n = len
+                    .checked_mul(2)
+                    .ok_or("protocol error; invalid map length")?;
+
+                for _ in 0..n {
                     Frame::check(src)?;
                 }
 
@@ -156,7 +163,9 @@ impl Frame {
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal(src)?.try_into()?;
-                    let n = len + 2;
+                    let n = len
+                        .checked_add(2)
+                        .ok_or("protocol error; invalid bulk length")?;
 
                     if src.remaining() < n {
                         return Err(Error::Incomplete);
-- 
2.43.0


From 5821552bffb5898bb4f6442d0a1aabb4fd9895bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 08/24] fix: hash map frames instead of panicking

A map used as a key of a map panicked on decoding.
---
 app/roster/src/application/server/frame/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index f4e873e..4e876c9 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -1,7 +1,9 @@
 //! Provides a type representing a Redis protocol frame as well as utilities for
 //! parsing frames from a byte array.
 
+use std::collections::hash_map::DefaultHasher;
 use std::convert::TryInto;
+use std::hash::{Hash, Hasher};
 use std::io::Cursor;
 use std::num::TryFromIntError;
 use std::string::FromUtf8Error;
@@ -45,9 +47,15 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
-                // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+            Frame::Map(f0) => {
+                // Two maps are equal whatever the order of their entries.
+                let mut sum = 0u64;
+                for entry in f0 {
+                    let mut hasher = DefaultHasher::new();
+                    entry.hash(&mut hasher);
+                    sum = sum.wrapping_add(hasher.finish());
+                }
+                sum.hash(ra_expand_state);
             }
         }
     }
-- 
2.43.0


From 6f366425f6a49746a902920acdcce91574e2430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 09/24] fix: limit the nesting of frames

Frames are handled recursively, so a few kilobytes of nested arrays overflowed
the stack of the thread and stopped the server.
---
 .../src/application/server/frame/mod.rs       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 4e876c9..0dc10db 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -14,6 +14,9 @@ use indexmap::IndexMap;
 
 pub(crate) mod write;
 
+/// How many frames a frame can be inside of, as frames are handled recursively.
+const MAX_DEPTH: usize = 128;
+
 /// A frame in the Redis protocol.
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum Frame {
@@ -75,6 +78,18 @@ pub enum Error {
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, 0)
+    }
+
+    /// Checks a frame which is inside `depth` other frames
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
+        if depth > MAX_DEPTH {
+            return Err("protocol error; too many nested frames".into());
+        }
+
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -107,7 +122,7 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
@@ -121,7 +136,7 @@ impl Frame {
                     .ok_or("protocol error; invalid map length")?;
 
                 for _ in 0..n {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
-- 
2.43.0


From cd958ebc96cefa69214e3d104213357a46556f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 10/24] fix: answer an error to ACL CAT instead of panicking

It is not implemented yet, which must not let any client stop the server.
---
 app/roster/src/application/server/cmd/acl/cat.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..d3bca39 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,13 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
-
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // TODO: Implement it.
+        let response =
+            Frame::Error(ByteString::from_static("ERR unknown command 'cat'"));
         dst.write_frame(&response).await?;
         Ok(())
-        */
     }
 }
-- 
2.43.0


From 3504d4f54521a98f8f52b80c37bb0bf9fb86f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 11/24] fix: don't echo line breaks of an unknown command in
 the error reply

They ended the reply early, and what followed was read as another reply.
---
 app/roster/src/application/server/cmd/unknown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/unknown.rs b/app/roster/src/application/server/cmd/unknown.rs
index b9e0dc8..1cab54a 100644
--- a/app/roster/src/application/server/cmd/unknown.rs
+++ b/app/roster/src/application/server/cmd/unknown.rs
@@ -28,9 +28,10 @@ impl CommandExecution for Unknown {
         dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
+        // An error is a single line, a line break would end the reply.
         let response = Frame::Error(ByteString::from(format!(
             "ERR unknown command '{}'",
-            self.command_name
+            self.command_name.replace(['\r', '\n'], " ")
         )));
 
         info!(?response);
-- 
2.43.0


From c57088d0fd22b4fd21e4282db171b7448f3be08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 12/24] fix: refuse connection names with spaces or line breaks

As documented they would violate the format of the CLIENT LIST reply, and a
line break in a name broke the replies sent to every client listing it.
---
 .../application/server/cmd/client/set_name.rs    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..6d91d35 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,21 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
+        // Those would violate the format of the CLIENT LIST reply.
+        let is_invalid = self
+            .name
+            .chars()
+            .any(|c| c.is_whitespace() || c.is_control());
 
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        let response = if is_invalid {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        } else {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
-- 
2.43.0


From 482f71d2edb05ca9bcdf5234a5a3a1ba5d945643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 13/24] fix: setting an empty connection name removes the name

As documented, CLIENT GETNAME then answers null again.
---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..324604d 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -114,10 +114,10 @@ impl MetadataConnection {
             .store(true, std::sync::atomic::Ordering::Relaxed);
     }
 
-    /// Set the name of the connection
+    /// Set the name of the connection, the empty string removes it
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        *lock = Some(name).filter(|name| !name.is_empty());
     }
 
     /// Set the name of the connection
-- 
2.43.0


From ccdf291fa6746a56269eb8681e2c3d34915e9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 14/24] fix: a time to live too far to be represented never
 ends

---
 app/roster/src/application/server/cmd/set.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..5174388 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -2,6 +2,7 @@ use std::time::Duration;
 
 use bytes::Bytes;
 use bytestring::ByteString;
+use coarsetime::Instant;
 
 use super::parse::{Parse, ParseError};
 use super::CommandExecution;
@@ -52,6 +53,21 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// The instant which is `dur` after `now`.
+///
+/// Return None when it's too far (more than a century) to be represented by an
+/// [Instant], it'll never be reached.
+fn deadline(now: Instant, dur: Duration) -> Option<Instant> {
+    // An [Instant] holds its seconds on 32 bits.
+    if dur.as_secs() > u32::MAX.into() {
+        return None;
+    }
+
+    let dur: coarsetime::Duration = dur.into();
+    now.as_ticks().checked_add(dur.as_ticks())?;
+    Some(now + dur)
+}
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -124,7 +140,7 @@ impl CommandExecution for Set {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let expired = self.expire.map(|dur| ctx.now() + dur.into());
+        let expired = self.expire.and_then(|dur| deadline(ctx.now(), dur));
 
         // let now = Instant::now();
         let response = match ctx.storage.set_async(
-- 
2.43.0


From c49e935d7b5a08962979b2ed54867c224876ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 15/24] fix: ROSTER_ environment variables must override the
 configuration file

---
 app/roster/src/infrastructure/config/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/infrastructure/config/mod.rs b/app/roster/src/infrastructure/config/mod.rs
index c9e3af1..3204f0a 100644
--- a/app/roster/src/infrastructure/config/mod.rs
+++ b/app/roster/src/infrastructure/config/mod.rs
@@ -27,7 +27,9 @@ impl Cfg {
             .add_source(
                 config::Environment::with_prefix("ROSTER")
                     .try_parsing(false)
-                    .separator("_"),
+                    // A single `_` is a part of the name of a setting.
+                    .prefix_separator("_")
+                    .separator("__"),
             )
             .build()?;
 
-- 
2.43.0


From 6796d563df78dbf081921505cdd384bc51d1fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 16/24] fix: failing to accept a connection must not stop the
 server

---
 .../src/application/server/server_thread.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 452705a..312e393 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -80,10 +81,18 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // Most likely out of file descriptors: we go on
+                            // with the open connections, and try again when
+                            // some of them may be gone.
+                            dbg!(&err);
+                            monoio::time::sleep(Duration::from_millis(10))
+                                .await;
+                            continue;
+                        }
+                    };
 
                     let laddr = conn.local_addr()?;
                     let fd = conn.as_raw_fd();
-- 
2.43.0


From 6e8cc2cffdb47687d8d7cde9ef5d883c263ac747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 17/24] fix: serve at most max_connection connections at the
 same time

---
 app/roster/src/application/server/context.rs  | 32 +++++++++++++++++++
 app/roster/src/application/server/mod.rs      |  2 +-
 .../src/application/server/server_thread.rs   | 20 ++++++++++--
 3 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/context.rs b/app/roster/src/application/server/context.rs
index 970a9c7..3f342e8 100644
--- a/app/roster/src/application/server/context.rs
+++ b/app/roster/src/application/server/context.rs
@@ -1,4 +1,5 @@
 use std::cell::Cell;
+use std::sync::atomic::{AtomicU16, Ordering};
 use std::sync::Arc;
 
 use coarsetime::Instant;
@@ -13,6 +14,35 @@ pub struct Context {
     pub supervisor: Supervisor,
     pub connection: Arc<MetadataConnection>,
     now: Cell<bool>,
+    /// Released with the last clone of the [Context]
+    _slot: Arc<ConnectionSlot>,
+}
+
+/// One of the connections we are allowed to serve at the same time, given back
+/// when dropped.
+pub struct ConnectionSlot {
+    available: Arc<AtomicU16>,
+}
+
+impl ConnectionSlot {
+    /// Take one of the available connections, None if there isn't any left.
+    pub fn reserve(available: &Arc<AtomicU16>) -> Option<Self> {
+        available
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |left| {
+                left.checked_sub(1)
+            })
+            .ok()?;
+
+        Some(Self {
+            available: available.clone(),
+        })
+    }
+}
+
+impl Drop for ConnectionSlot {
+    fn drop(&mut self) {
+        self.available.fetch_add(1, Ordering::AcqRel);
+    }
 }
 
 impl Context {
@@ -20,12 +50,14 @@ impl Context {
         storage: StorageSegment,
         supervisor: Supervisor,
         meta_conn: Arc<MetadataConnection>,
+        slot: ConnectionSlot,
     ) -> Self {
         Self {
             storage,
             supervisor,
             connection: meta_conn,
             now: Cell::new(false),
+            _slot: Arc::new(slot),
         }
     }
 
diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 8ee156f..b164916 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -27,7 +27,7 @@ use crate::infrastructure::hash::HASH_SLOT_MAX;
 #[builder(pattern = "owned", setter(into, strip_option))]
 pub struct ServerConfig {
     bind_addr: SocketAddr,
-    #[allow(dead_code)]
+    /// How many more connections can be served for now
     connections_limit: Arc<AtomicU16>,
 }
 
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 312e393..64974d9 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -8,7 +8,7 @@ use monoio::net::{ListenerConfig, TcpListener};
 use super::supervisor::Supervisor;
 use super::ServerConfig;
 use crate::application::server::connection::WriteConnection;
-use crate::application::server::context::Context;
+use crate::application::server::context::{ConnectionSlot, Context};
 use crate::application::server::handle::Handler;
 use crate::domain::dialer::{Dialer, RootDialer};
 use crate::domain::storage::{Storage, StorageSegment};
@@ -94,6 +94,16 @@ impl ServerMonoThreadedHandle {
                         }
                     };
 
+                    // When the limit is reached, we stop accepting until an
+                    // active connection terminates.
+                    let slot = loop {
+                        let limit = &self.config.connections_limit;
+                        if let Some(slot) = ConnectionSlot::reserve(limit) {
+                            break slot;
+                        }
+                        monoio::time::sleep(Duration::from_millis(5)).await;
+                    };
+
                     let laddr = conn.local_addr()?;
                     let fd = conn.as_raw_fd();
 
@@ -102,8 +112,12 @@ impl ServerMonoThreadedHandle {
                     let supervisor = self.supervisor.clone();
 
                     conn.set_nodelay(true).unwrap();
-                    let ctx =
-                        Context::new(storage, supervisor, meta_conn.clone());
+                    let ctx = Context::new(
+                        storage,
+                        supervisor,
+                        meta_conn.clone(),
+                        slot,
+                    );
 
                     // We map it to an `Handler` which is able to understand
                     // the Redis protocol
-- 
2.43.0


From eee71eef1251eb9ab3bc4c01fbce1987f5797eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 18/24] fix: forget the metadata of terminated connections

---
 app/roster/src/application/server/server_thread.rs  | 3 ++-
 app/roster/src/application/server/supervisor/mod.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 64974d9..7bb903b 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -114,7 +114,7 @@ impl ServerMonoThreadedHandle {
                     conn.set_nodelay(true).unwrap();
                     let ctx = Context::new(
                         storage,
-                        supervisor,
+                        supervisor.clone(),
                         meta_conn.clone(),
                         slot,
                     );
@@ -139,6 +139,7 @@ impl ServerMonoThreadedHandle {
                         }
 
                         meta_conn.stop();
+                        supervisor.remove_connection(&meta_conn);
                         // handler.connection.stop().await.unwrap();
                     });
                 }
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index 324604d..97d3554 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -64,6 +64,11 @@ impl Supervisor {
         conn
     }
 
+    /// Forget a connection which is terminated.
+    pub fn remove_connection(&self, conn: &MetadataConnection) {
+        self.current_connections.remove(&conn.id);
+    }
+
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
         let mut result = Vec::new();
-- 
2.43.0


From 6ee414a35373da70949f5ec3911c425f91f16db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 19/24] verif: expose internals to the verification builds (cfg
 roster_verif)

---
 app/roster/src/application/server/frame/mod.rs |  3 +++
 app/roster/src/application/server/mod.rs       |  6 ++++++
 app/roster/src/domain/storage/mod.rs           | 12 ++++++++++--
 app/roster/src/lib.rs                          |  1 +
 app/roster/src/main.rs                         |  1 +
 5 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 0dc10db..59a31bc 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -14,6 +14,9 @@ use indexmap::IndexMap;
 
 pub(crate) mod write;
 
+#[cfg(roster_verif)]
+pub use self::write::write_frame;
+
 /// How many frames a frame can be inside of, as frames are handled recursively.
 const MAX_DEPTH: usize = 128;
 
diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index b164916..075ba2b 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -16,6 +16,12 @@ mod server_thread;
 
 mod supervisor;
 
+#[cfg(roster_verif)]
+pub mod verif {
+    pub use super::cmd::{Command, CommandExecution};
+    pub use super::supervisor::{MetadataConnection, Supervisor};
+}
+
 use self::server_thread::ServerMonoThreadedHandle;
 use self::supervisor::Supervisor;
 use crate::application::server::handle::ConnectionMsg;
diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index 1f2200f..5a07d08 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -13,6 +13,14 @@ use scc::HashMap;
 use super::dialer::Slot;
 use crate::infrastructure::hash::HASH_SLOT_MAX;
 
+/// Initial capacity of a [StorageSegment]
+#[cfg(not(roster_verif))]
+const CAPACITY: usize = 2usize.pow(20);
+
+/// Many segments are created at once when verifying them.
+#[cfg(roster_verif)]
+const CAPACITY: usize = 0;
+
 #[derive(Debug)]
 pub struct StorageValue {
     pub expired: Option<Instant>,
@@ -38,11 +46,11 @@ impl StorageSegment {
     /// Create a new [StorageSegment] by specifying the hash slot it handles.
     pub fn new(slot: Slot) -> Self {
         let h = HashMap::with_capacity_and_hasher(
-            2usize.pow(20),
+            CAPACITY,
             Default::default(),
         );
 
-        for _ in 0..(2usize.pow(20)) {
+        for _ in 0..(CAPACITY) {
             drop(scc::ebr::Guard::new());
         }
 
diff --git a/app/roster/src/lib.rs b/app/roster/src/lib.rs
index 2d451c8..65d31f9 100644
--- a/app/roster/src/lib.rs
+++ b/app/roster/src/lib.rs
@@ -1,4 +1,5 @@
 #![feature(negative_impls)]
+#![allow(unexpected_cfgs)]
 pub mod application;
 pub mod domain;
 pub mod infrastructure;
diff --git a/app/roster/src/main.rs b/app/roster/src/main.rs
index 5fea4d9..0d22bbb 100644
--- a/app/roster/src/main.rs
+++ b/app/roster/src/main.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::print_literal)]
 #![feature(negative_impls)]
+#![allow(unexpected_cfgs)]
 mod application;
 mod domain;
 mod infrastructure;
-- 
2.43.0


From 8beb15a0a314354fe9cf30eff42b4c65cae6dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 20/24] fix: CLIENT LIST never lists a connection twice

The scan of the connections can visit an entry more than once when the
map is resized by connections opened or ended meanwhile.
---
 app/roster/src/application/server/supervisor/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index 97d3554..eb482a9 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeMap;
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicBool, AtomicU64};
 use std::sync::Arc;
@@ -71,7 +72,9 @@ impl Supervisor {
 
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
-        let mut result = Vec::new();
+        // An entry can be visited more than once when the map is resized
+        // meanwhile.
+        let mut result = BTreeMap::new();
 
         self.current_connections
             .scan_async(|_, conn| {
@@ -79,12 +82,12 @@ impl Supervisor {
                     conn.stopped.load(std::sync::atomic::Ordering::Relaxed);
 
                 if !stopped && conn.kind == MetadataConnectionKind::Normal {
-                    result.push(conn.clone());
+                    result.insert(conn.id, conn.clone());
                 }
             })
             .await;
 
-        result
+        result.into_values().collect()
     }
 }
 
-- 
2.43.0


From 71b757a914769066eb037d2417af59d4d7deb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 21/24] fix: CLIENT LIST applies its TYPE and ID filters

They were parsed, and every connection was listed anyway.
---
 .../src/application/server/cmd/client/list.rs  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/list.rs b/app/roster/src/application/server/cmd/client/list.rs
index 3623e0e..3008800 100644
--- a/app/roster/src/application/server/cmd/client/list.rs
+++ b/app/roster/src/application/server/cmd/client/list.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use anyhow::bail;
 
 use super::super::parse::Parse;
@@ -18,9 +20,7 @@ use crate::application::server::frame::Frame;
 /// client-id arguments.
 #[derive(Debug, Default)]
 pub struct ClientList {
-    #[allow(dead_code)]
     r#type: ClientType,
-    #[allow(dead_code)]
     ids: Option<Vec<u64>>,
 }
 
@@ -101,7 +101,19 @@ impl ClientList {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let connections = ctx.supervisor.get_normal_connection().await;
+        // There are only normal connections for now.
+        let mut connections = match self.r#type {
+            ClientType::Normal => ctx.supervisor.get_normal_connection().await,
+            ClientType::Replica | ClientType::Master | ClientType::Pubsub => {
+                Vec::new()
+            }
+        };
+
+        // Without any ID, there is nothing to filter.
+        if let Some(ids) = self.ids.filter(|ids| !ids.is_empty()) {
+            let ids: HashSet<u64> = ids.into_iter().collect();
+            connections.retain(|conn| ids.contains(&conn.id));
+        }
 
         // TODO(@miaxos): lot of things missing here
         let mut conn_frames = Vec::with_capacity(connections.len());
-- 
2.43.0


From 27671b46979be28387342a8e90e0bc04c8585b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 22/24] fix: failing to write its output must not stop the
 server

---
 app/roster/src/application/server/mod.rs           | 3 ++-
 app/roster/src/application/server/server_thread.rs | 6 +++---
 app/roster/src/domain/storage/mod.rs               | 3 ++-
 app/roster/src/infrastructure/instruments/mod.rs   | 8 +++++++-
 app/roster/src/main.rs                             | 4 +++-
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 075ba2b..dc54ca2 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use std::thread::JoinHandle;
 
 use derive_builder::Builder;
+use tracing::debug;
 
 mod connection;
 mod context;
@@ -56,7 +57,7 @@ impl ServerConfig {
         let main_dialer = RootDialer::new(mesh, &storage);
 
         for cpu in 0..cpus {
-            dbg!(cpu);
+            debug!(cpu);
             // TODO(@miaxos): There are some links between those two, mb we
             // should modelise it again.
             let config = self.clone();
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 7bb903b..dd3fa76 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -4,6 +4,7 @@ use std::thread::JoinHandle;
 use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
+use tracing::error;
 
 use super::supervisor::Supervisor;
 use super::ServerConfig;
@@ -87,7 +88,7 @@ impl ServerMonoThreadedHandle {
                             // Most likely out of file descriptors: we go on
                             // with the open connections, and try again when
                             // some of them may be gone.
-                            dbg!(&err);
+                            error!(?err);
                             monoio::time::sleep(Duration::from_millis(10))
                                 .await;
                             continue;
@@ -134,8 +135,7 @@ impl ServerMonoThreadedHandle {
                         // An error ends this connection, it must not impact
                         // any other connected client.
                         if let Err(err) = handler.run(ctx).await {
-                            dbg!(&err);
-                            // error!(?err);
+                            error!(?err);
                         }
 
                         meta_conn.stop();
diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index 5a07d08..e38bb99 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -9,6 +9,7 @@ use bytestring::ByteString;
 use coarsetime::Instant;
 use rustc_hash::FxHasher;
 use scc::HashMap;
+use tracing::debug;
 
 use super::dialer::Slot;
 use crate::infrastructure::hash::HASH_SLOT_MAX;
@@ -89,7 +90,7 @@ impl StorageSegment {
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
 
         if old % 1_000_000 == 0 {
-            dbg!(old);
+            debug!(old);
         }
 
         // The entry stays locked from the lookup to the write, so a concurrent
diff --git a/app/roster/src/infrastructure/instruments/mod.rs b/app/roster/src/infrastructure/instruments/mod.rs
index 8ca3e31..c7c2bb0 100644
--- a/app/roster/src/infrastructure/instruments/mod.rs
+++ b/app/roster/src/infrastructure/instruments/mod.rs
@@ -13,7 +13,13 @@ impl Instruments {
     pub fn new() -> anyhow::Result<Self> {
         let subscriber = Registry::default()
             .with(tracing_subscriber::EnvFilter::from_default_env())
-            .with(tracing_subscriber::fmt::layer().with_thread_ids(true));
+            .with(
+                tracing_subscriber::fmt::layer()
+                    .with_thread_ids(true)
+                    // Those go to the standard error by a macro which panics
+                    // when it can't be written.
+                    .log_internal_errors(false),
+            );
 
         tracing::subscriber::set_global_default(subscriber)
             .with_context(|| "cannot set global default subscriber")?;
diff --git a/app/roster/src/main.rs b/app/roster/src/main.rs
index 0d22bbb..f55ec0a 100644
--- a/app/roster/src/main.rs
+++ b/app/roster/src/main.rs
@@ -5,6 +5,7 @@ mod application;
 mod domain;
 mod infrastructure;
 
+use std::io::Write;
 use std::sync::Arc;
 
 use application::server::ServerConfigBuilder;
@@ -42,7 +43,8 @@ fn main() -> anyhow::Result<()> {
         .initialize();
 
     // From: https://ascii.co.uk/art/rooster
-    println!(
+    let _ = writeln!(
+        std::io::stdout(),
         r###"
                       ~-.
     ,,,;            ~-.~-.~-            Roster {version}
-- 
2.43.0


From 10f05bba243a65d153e9ab61009a882298371ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 23/24] verif: the first identifier can be chosen in the
 verification builds (cfg roster_verif)

---
 app/roster/src/application/server/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index dc54ca2..2ed5f1e 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -21,6 +21,21 @@ mod supervisor;
 pub mod verif {
     pub use super::cmd::{Command, CommandExecution};
     pub use super::supervisor::{MetadataConnection, Supervisor};
+
+    /// The identifier of the first connection
+    pub fn first_id() -> u64 {
+        std::env::var("ROSTER_VERIF_FIRST_ID")
+            .ok()
+            .and_then(|id| id.parse().ok())
+            .unwrap_or(0)
+    }
+}
+
+#[cfg(not(roster_verif))]
+mod verif {
+    pub const fn first_id() -> u64 {
+        0
+    }
 }
 
 use self::server_thread::ServerMonoThreadedHandle;
@@ -53,7 +68,7 @@ impl ServerConfig {
 
         let config_slot = Slot::from(0..HASH_SLOT_MAX);
         let storage = Storage::new(1, config_slot);
-        let supervisor = Supervisor::new(0);
+        let supervisor = Supervisor::new(verif::first_id());
         let main_dialer = RootDialer::new(mesh, &storage);
 
         for cpu in 0..cpus {
-- 
2.43.0


From cf7221cd5027d5f5fb98bff03f2794c94b7c6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 24/24] fix: the server starts on processors other than the
 first ones

In a cpuset which excludes some of the first processors, a thread can't be
bound to its processor; that ended the whole process.
---
 app/roster/src/application/server/server_thread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index dd3fa76..0a2b18a 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -59,7 +59,11 @@ impl ServerMonoThreadedHandle {
 
     pub fn initialize(self) -> JoinHandle<()> {
         std::thread::spawn(move || {
-            monoio::utils::bind_to_cpu_set(Some(self.cpu)).unwrap();
+            // The process may not be allowed to use this cpu (in a cpuset for
+            // instance), then the thread runs where it can.
+            if let Err(err) = monoio::utils::bind_to_cpu_set(Some(self.cpu)) {
+                error!(?err);
+            }
 
             let mut rt = monoio::RuntimeBuilder::<Driver>::new()
                 .with_entries(1024)
-- 
2.43.0

