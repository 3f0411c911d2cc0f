From a5b71a641b2128ed943daa8f26208f4af91d8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 01/70] fix: identify and order tag sets independently of their
 insertion history

The series hashes and cmp_tagmap walked the tag map in iteration order, which
depends on how it was built: the same tags could land in different buckets, and
a point without tags compared equal to any tagged one.
---
 src/metric/mod.rs       | 16 ++++++++++++++--
 src/metric/telemetry.rs |  6 +++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..3ee9c18 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -32,13 +32,25 @@ pub fn cmp_tagmap(
             if l.len() != r.len() {
                 l.len().partial_cmp(&r.len())
             } else {
-                l.iter().partial_cmp(r)
+                sorted_tags(l).partial_cmp(&sorted_tags(r))
             }
         }
-        _ => Some(cmp::Ordering::Equal),
+        (&Some(ref l), &None) => l.len().partial_cmp(&0),
+        (&None, &Some(ref r)) => 0.partial_cmp(&r.len()),
+        (&None, &None) => Some(cmp::Ordering::Equal),
     }
 }
 
+/// The pairs of a tagmap, sorted
+///
+/// The iteration order of a map depends on its insertion history. Anything that
+/// identifies or orders a set of tags must not.
+fn sorted_tags(tags: &TagMap) -> Vec<(&String, &String)> {
+    let mut pairs: Vec<(&String, &String)> = tags.iter().collect();
+    pairs.sort();
+    pairs
+}
+
 #[allow(missing_docs)]
 pub enum TagIter<'a> {
     Single {
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..d6548ae 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -1,4 +1,4 @@
-use crate::metric::{cmp_tagmap, TagIter, TagMap};
+use crate::metric::{cmp_tagmap, sorted_tags, TagIter, TagMap};
 use crate::time;
 use quantiles::ckms::CKMS;
 #[cfg(test)]
@@ -845,7 +845,7 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
+            for (k, v) in sorted_tags(tags) {
                 k.hash(&mut hasher);
                 v.hash(&mut hasher);
             }
@@ -864,7 +864,7 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
+            for (k, v) in sorted_tags(tags) {
                 k.hash(&mut hasher);
                 v.hash(&mut hasher);
             }
-- 
2.43.0


From 0fe763fd339d3e9596b60b44fae068efab3a3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 02/70] fix: count each upstream shutdown once in the sink run
 loop

The Shutdown arm never left the delivery loop, so a sink with several
upstreams counted the first Shutdown once per upstream and stopped with
events of the other upstreams still on their way.
---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From c0ba355818f455f50a72a0ce9752c63704135a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 03/70] fix: forward Shutdown once, after every upstream of a
 filter has stopped

A filter passed each upstream's Shutdown on as it came, so its own
downstreams counted this one filter several times and stopped before it
and their other upstreams had.
---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..7c995e9 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,13 +81,13 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
                 }
-- 
2.43.0


From 78513ddc683ca0f6483c105ab60fb9b54a59f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 04/70] fix: pass on what a filter emitted for an event it
 failed on

Events pushed before the failure, such as the flush pulse of a failing
tick, stayed in the buffer until some later event was processed without
error, and were lost at shutdown.
---
 src/filter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 7c995e9..d1aea30 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -106,6 +106,9 @@ pub trait Filter {
                             );
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                         }
                     }
                 }
-- 
2.43.0


From c09482e0c540940ad4633670f8aeb7f8b4519f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 05/70] fix: publish what a spilled queue still holds when
 sending Shutdown

hopper publishes an event it wrote to disk only when a later send finds
room in memory. Shutdown has no later send, so it and the events spilled
with it never reached the consumer and cernan did not stop.
---
 src/util.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index c12d585..f1a59cf 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,7 @@
 //! Utility module, a grab-bag of functionality
 use crate::constants;
 use crate::metric;
+use crate::time;
 use hopper;
 use mio;
 use seahash::SeaHasher;
@@ -31,6 +32,7 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
         return;
     }
 
+    let is_shutdown = event == metric::Event::Shutdown;
     let max: usize = chans.len().saturating_sub(1);
     if max != 0 {
         for chan in &mut chans[1..] {
@@ -65,6 +67,18 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
             }
         }
     }
+    if is_shutdown {
+        // A hopper queue that has spilled to disk publishes what it wrote when
+        // a later send finds room in memory. Nothing is sent after Shutdown, so
+        // we wait for that room here.
+        for chan in chans.iter_mut() {
+            let mut attempts = 0;
+            while chan.flush().is_err() {
+                attempts += 1;
+                time::delay(attempts);
+            }
+        }
+    }
 }
 
 /// Determine the state of a buffering queue, whether open or closed.
-- 
2.43.0


From 2e219653b03e3782cbe8db1f2ecb087c9be1dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 06/70] fix: let a crashed connection handler end without
 taking its source down

A panic in a stream handler was re-raised when the pool joined it, so at
shutdown the source died before telling its downstreams, and until then
the handler was never reaped.
---
 src/thread.rs | 53 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..36711c8 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -48,6 +48,13 @@ impl Stoppable for ThreadHandle {
     }
 }
 
+/// Joins a pooled thread. Such a thread may crash without taking its pool down.
+fn join_pooled(thread: ThreadHandle) {
+    if thread.handle.join().is_err() {
+        error!("A pooled thread has crashed.");
+    }
+}
+
 /// Spawns a new thread executing the provided closure.
 pub fn spawn<F>(f: F) -> ThreadHandle
 where
@@ -84,6 +91,26 @@ pub struct ThreadPool {
     thread_event_readiness: option::Option<mio::SetReadiness>,
 }
 
+/// Announces the end of a pooled thread, whether it returned or panicked.
+struct Finished {
+    id: usize,
+    joinable: sync::Arc<sync::Mutex<Vec<usize>>>,
+    readiness: option::Option<mio::SetReadiness>,
+}
+
+impl Drop for Finished {
+    fn drop(&mut self) {
+        if let Ok(mut joinable) = self.joinable.lock() {
+            joinable.push(self.id);
+        }
+        if let Some(ref readiness) = self.readiness {
+            if let Err(e) = readiness.set_readiness(mio::Ready::readable()) {
+                error!("Failed to flag readiness for ThreadPool event! {:?}", e);
+            }
+        }
+    }
+}
+
 impl ThreadPool {
     /// Construct a new ThreadPool.
     pub fn new(thread_events_readiness: option::Option<mio::SetReadiness>) -> Self {
@@ -101,19 +128,14 @@ impl ThreadPool {
         F: Send + 'static + FnOnce(mio::Poll) -> (),
     {
         let id = self.next_thread_id();
-        let joinable_arc = self.joinable.clone();
-        let thread_event_readiness = self.thread_event_readiness.clone();
+        let finished = Finished {
+            id: id,
+            joinable: self.joinable.clone(),
+            readiness: self.thread_event_readiness.clone(),
+        };
         let handler = spawn(move |poller| {
+            let _finished = finished;
             f(poller);
-
-            let mut joinable = joinable_arc.lock().unwrap();
-            joinable.push(id);
-
-            if let Some(readiness) = thread_event_readiness {
-                readiness
-                    .set_readiness(mio::Ready::readable())
-                    .expect("Failed to flag readiness for ThreadPool event!");
-            }
         });
         self.threads.insert(id, handler);
         id
@@ -127,7 +149,7 @@ impl ThreadPool {
 
     /// Block on completion of all executing threads.
     pub fn join(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.join());
+        self.threads.drain().for_each(|(_, h)| join_pooled(h));
         self.join_ready()
     }
 
@@ -137,7 +159,7 @@ impl ThreadPool {
         let mut joined = Vec::new();
         while let Some(id) = joinable.pop() {
             if let Some(handle) = self.threads.remove(&id) {
-                handle.join();
+                join_pooled(handle);
             }
             joined.push(id);
         }
@@ -146,7 +168,10 @@ impl ThreadPool {
 
     /// Serially signal shutdown and block for completion of all threads.
     pub fn shutdown(mut self) -> Vec<usize> {
-        self.threads.drain().for_each(|(_, h)| h.shutdown());
+        self.threads.drain().for_each(|(_, h)| {
+            let _ = h.shutdown_event.set_readiness(mio::Ready::readable());
+            join_pooled(h);
+        });
         self.join_ready()
     }
 }
-- 
2.43.0


From fc201edaa2841bf45b0256da2a509fe74664dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 07/70] fix: drop what a bad statsd packet parsed to before its
 malformed line

It stayed in the buffer and was emitted as part of the next good packet
of the same read burst.
---
 src/source/statsd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..6a11466 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -110,6 +110,8 @@ impl Statsd {
                             }
                             STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
                         } else {
+                            // The lines before the malformed one.
+                            metrics.clear();
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
                         }
-- 
2.43.0


From a3d70ae598ab17c98062cf10b36e287f53a71172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 08/70] fix: count a statsd packet that is not UTF-8 as bad

---
 src/source/statsd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index 6a11466..2071ecb 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -117,6 +117,7 @@ impl Statsd {
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
-- 
2.43.0


From 108032c66b56d05664462d4387f478dee69dcdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 09/70] fix: receive whole statsd datagrams

A datagram above 16250 bytes was cut there, and the cut line could still
parse, with the first digits of its value.
---
 src/source/statsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index 2071ecb..4d92cce 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -175,7 +175,7 @@ impl source::Source<StatsdConfig> for Statsd {
             }
         }
 
-        let mut buf = vec![0; 16_250];
+        let mut buf = vec![0; 65_536];
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
-- 
2.43.0


From e4d93fc2a1ee5aea85b7612b91502caaafd12238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 10/70] fix: read graphite lines as bytes and end the handler
 with its connection

read_line discards a partial read that ends inside a multi-byte
character, a line that is not UTF-8 stalled the bytes behind it, a
malformed line left its first metrics to the next one, and at the end of
a connection its thread and descriptor stayed for good.
---
 src/source/graphite.rs | 49 +++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..0832839 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,7 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
@@ -76,13 +76,34 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                         match event.token() {
                             constants::SYSTEM => return,
                             _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
+                                loop {
+                                    // A line is kept in the buffer until all
+                                    // of it has arrived. The last line of a
+                                    // connection may lack its newline.
+                                    let eof = match line_reader
+                                        .read_until(b'\n', &mut line)
+                                    {
+                                        Ok(len) => len == 0,
+                                        Err(ref e)
+                                            if e.kind() == ErrorKind::WouldBlock =>
+                                        {
+                                            break
+                                        }
+                                        Err(e) => {
+                                            trace!("TCP stream failed: {:?}", e);
+                                            return;
+                                        }
+                                    };
+                                    if !line.is_empty() {
+                                        let good = match str::from_utf8(&line) {
+                                            Ok(src) => parse_graphite(
+                                                src,
+                                                &mut res,
+                                                &basic_metric,
+                                            ),
+                                            Err(_) => false,
+                                        };
+                                        if good {
                                             assert!(!res.is_empty());
                                             GRAPHITE_GOOD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
@@ -94,15 +115,17 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                                                     metric::Event::Telemetry(m),
                                                 );
                                             }
-                                            line.clear();
                                         } else {
                                             GRAPHITE_BAD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
                                             error!("bad packet: {:?}", line);
-                                            line.clear();
+                                            res.clear();
                                         }
-                                    } else {
-                                        break;
+                                        line.clear();
+                                    }
+                                    if eof {
+                                        trace!("TCP stream closed.");
+                                        return;
                                     }
                                 }
                             }
-- 
2.43.0


From 17dea89d3a3cc2ab51eba758452b963f0e79909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 11/70] fix: keep a partially received length prefix

read_u32 discards the bytes it got before the read would block, so a
prefix that arrived in two segments lost the framing of its connection.
---
 src/source/nonblocking.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..d87d808 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -82,6 +82,9 @@ pub struct BufferedPayload {
     /// Position in the payload byte vector receiving.
     payload_pos: usize,
 
+    /// Bytes of the next length prefix received so far.
+    prefix: Vec<u8>,
+
     ///Bytes comprising the payload.
     payload: Vec<u8>,
 
@@ -96,6 +99,7 @@ impl BufferedPayload {
             payload_size: None,
             max_payload_size: max_payload_size,
             payload_pos: 0,
+            prefix: Vec::with_capacity(4),
             payload: Vec::new(),
             buffer: io::BufReader::new(stream),
         }
@@ -131,7 +135,18 @@ impl BufferedPayload {
     /// If a cached value already exists, this function noops.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
         if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
+            // The prefix may arrive in pieces. What has been read of it has to
+            // survive a read that would block.
+            while self.prefix.len() < 4 {
+                let mut buf = [0; 4];
+                let missing = 4 - self.prefix.len();
+                match self.buffer.read(&mut buf[..missing])? {
+                    0 => return Err(PayloadErr::EOF),
+                    n => self.prefix.extend_from_slice(&buf[..n]),
+                }
+            }
+            self.payload_size = Some(BigEndian::read_u32(&self.prefix) as usize);
+            self.prefix.clear();
         };
         Ok(())
     }
-- 
2.43.0


From dd0f59811a77bbf0be5d33ac79ca3dc858b14d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 12/70] fix: accept payloads of zero length

A read into an empty buffer returns 0, which was taken for the end of the
stream. The native sink sends such a payload at every idle flush.
---
 src/source/nonblocking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index d87d808..f89f526 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -164,6 +164,12 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
+        if payload_size == 0 {
+            // An empty read would be taken for the end of the stream.
+            self.payload_size = None;
+            return Ok(());
+        }
+
         loop {
             match self
                 .buffer
-- 
2.43.0


From 38a939f10e5280fdbcc6dca86823d7fd6d86a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 13/70] fix: treat an avro payload that ends inside its header
 as malformed

It panicked the connection's handler instead of being counted.
---
 src/source/avro.rs | 67 ++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..3bee67d 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,7 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -31,7 +31,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +77,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Self> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -111,30 +111,39 @@ enum Payload {
     },
 }
 
+/// Reads all that precedes the avro container of a payload.
+fn read_header(
+    cursor: &mut Cursor<Vec<u8>>,
+) -> io::Result<(Header, Option<Metadata>)> {
+    let header = Header::read(cursor)?;
+    if header.version < 2 {
+        return Ok((header, None));
+    }
+    let num_kv = cursor.read_u8()?;
+    if num_kv < 1 {
+        return Ok((header, None));
+    }
+    let mut m: Metadata = Metadata::default();
+    for _ in 0..num_kv {
+        let key_len = cursor.read_u8()?;
+        let mut key = vec![0; key_len as usize];
+        cursor.read_exact(&mut key)?;
+        let val_len = cursor.read_u16::<BigEndian>()?;
+        let mut val = vec![0; val_len as usize];
+        cursor.read_exact(&mut val)?;
+        m.insert(key, val);
+    }
+    Ok((header, Some(m)))
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
         let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
-
-        let metadata = if header.version < 2 {
-            None
-        } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
-                }
-                Some(m)
+        let (header, metadata) = match read_header(&mut cursor) {
+            Ok(header_and_metadata) => header_and_metadata,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read header - {:?}.", e));
             }
         };
 
-- 
2.43.0


From 1d49b46f6be35aeac1018c26afecdb970ff9a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 14/70] fix: survive an avro client that leaves before its
 acknowledgement

---
 src/source/avro.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 3bee67d..bbdbc32 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -222,10 +222,19 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
+                                                if let Err(e) = write_all(
+                                                    &stream,
+                                                    resp.get_ref(),
+                                                ) {
+                                                    error!(
+                                                        "Failed to ack {:?}: {:?}",
+                                                        id, e
                                                     );
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(1, Ordering::Relaxed);
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
-- 
2.43.0


From 31c3e104f241a701f4dd0e1e3f6c616e8bb78d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 15/70] fix: acknowledge a synchronous avro payload for its own
 publication

The wait was keyed by connection, so that the publication of an earlier
asynchronous payload of the same connection, or a second sink publishing
the previous one, acknowledged a payload not published yet.
---
 src/source/avro.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index bbdbc32..a4b6f40 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -330,8 +330,15 @@ impl AvroStreamHandler {
                 avro_blob,
             } => {
                 let ackbag = metric::global_ack_bag();
+                // An acknowledgement has to be for this payload, not for an
+                // earlier one of the same connection still on its way.
+                let ack_id = if header.sync() {
+                    Uuid::new_v4()
+                } else {
+                    connection_id
+                };
                 if header.sync() {
-                    ackbag.prepare_wait(connection_id)
+                    ackbag.prepare_wait(ack_id)
                 }
 
                 util::send(
@@ -341,13 +348,13 @@ impl AvroStreamHandler {
                         encoding: metric::Encoding::Avro,
                         bytes: avro_blob,
                         metadata: metadata,
-                        connection_id: Some(connection_id),
+                        connection_id: Some(ack_id),
                     },
                 );
 
                 if header.sync() {
-                    ackbag.wait_for(connection_id);
-                    ackbag.remove(connection_id);
+                    ackbag.wait_for(ack_id);
+                    ackbag.remove(ack_id);
                     Ok(Some(header.id))
                 } else {
                     Ok(None)
-- 
2.43.0


From 95ceeaa530f57b8442657d5d4452d4b95007bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 16/70] fix: stop waiting for an avro acknowledgement at
 shutdown

A handler waiting for an acknowledgement that does not come did not see
the shutdown event, and the source waited for it forever.
---
 src/source/avro.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index a4b6f40..c81ce36 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,9 +7,11 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
+use std::cell::Cell;
 use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 use uuid::Uuid;
 
 /// Total payloads processed.
@@ -201,9 +203,15 @@ impl TCPStreamHandler for AvroStreamHandler {
                                         Ok(payload) => {
                                             let handle_res = self.handle_avro_payload(
                                                 chans.clone(),
+                                                poller,
                                                 payload,
                                                 connection_id,
                                             );
+                                            if let Err(PayloadErr::EOF) = handle_res {
+                                                trace!("Shut down awaiting an ack.");
+                                                streaming = false;
+                                                break;
+                                            }
                                             if handle_res.is_err() {
                                                 AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                     .fetch_add(1, Ordering::Relaxed);
@@ -320,6 +328,7 @@ impl AvroStreamHandler {
     fn handle_avro_payload(
         &mut self,
         mut chans: util::Channel,
+        poller: &mio::Poll,
         payload: Vec<u8>,
         connection_id: Uuid,
     ) -> Result<Option<u64>, PayloadErr> {
@@ -353,8 +362,23 @@ impl AvroStreamHandler {
                 );
 
                 if header.sync() {
-                    ackbag.wait_for(ack_id);
+                    // The wait ends early on shutdown. It may see the stream's own
+                    // readiness, but the stream is read on after it anyway.
+                    let shutdown = Cell::new(false);
+                    ackbag.wait_for_callback(ack_id, |nap| {
+                        let mut events = mio::Events::with_capacity(8);
+                        if poller.poll(&mut events, Some(nap)).is_err() {
+                            thread::sleep(nap);
+                        }
+                        if events.iter().any(|ev| ev.token() == constants::SYSTEM) {
+                            shutdown.set(true);
+                            ackbag.remove(ack_id);
+                        }
+                    });
                     ackbag.remove(ack_id);
+                    if shutdown.get() {
+                        return Err(PayloadErr::EOF);
+                    }
                     Ok(Some(header.id))
                 } else {
                     Ok(None)
-- 
2.43.0


From 9b117ac83203fb322a314d3dea1e7cf33dd225ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 17/70] fix: take no infinite or NaN measurement from a client

"nan" and "inf" parse as floats, and a sample rate of 0 makes more of
them. A histogram panics on NaN and takes the statsd source's thread with
it.
---
 src/protocols/graphite.rs |  5 +++--
 src/protocols/statsd.rs   | 46 ++++++++++++++++++++++++++-------------
 src/source/native.rs      |  3 ++-
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/protocols/graphite.rs b/src/protocols/graphite.rs
index 81da657..f1b9eb4 100644
--- a/src/protocols/graphite.rs
+++ b/src/protocols/graphite.rs
@@ -17,8 +17,9 @@ pub fn parse_graphite(
             Some(val) => match iter.next() {
                 Some(time) => {
                     let parsed_val = match f64::from_str(val) {
-                        Ok(f) => f,
-                        Err(_) => return false,
+                        // Infinities and NaN parse as floats but measure nothing.
+                        Ok(f) if f.is_finite() => f,
+                        _ => return false,
                     };
                     let parsed_time = match i64::from_str(time) {
                         Ok(t) => t,
diff --git a/src/protocols/statsd.rs b/src/protocols/statsd.rs
index e3a8503..363bab8 100644
--- a/src/protocols/statsd.rs
+++ b/src/protocols/statsd.rs
@@ -9,6 +9,19 @@ use crate::time;
 use std::str::FromStr;
 use std::sync;
 
+/// Parse a number. Infinities and NaN parse as floats but measure nothing.
+fn parse_finite(source: &str) -> Option<f64> {
+    f64::from_str(source).ok().filter(|f| f.is_finite())
+}
+
+/// Scale a value up by the sample rate it was collected at.
+fn scale(val: f64, rate: &str) -> Option<f64> {
+    parse_finite(rate)
+        .filter(|sample| *sample > 0.0)
+        .map(|sample| val * (1.0 / sample))
+        .filter(|scaled| scaled.is_finite())
+}
+
 /// Valid message formats are:
 ///
 /// - `<str:metric_name>:<f64:value>|<str:type>`
@@ -41,9 +54,9 @@ pub fn parse_statsd(
                 match (&src[offset..]).find('|') {
                     Some(pipe_idx) => {
                         let val =
-                            match f64::from_str(&src[offset..(offset + pipe_idx)]) {
-                                Ok(f) => f,
-                                Err(_) => return false,
+                            match parse_finite(&src[offset..(offset + pipe_idx)]) {
+                                Some(f) => f,
+                                None => return false,
                             };
                         let mut metric =
                             sync::Arc::make_mut(&mut sync::Arc::clone(metric))
@@ -65,11 +78,12 @@ pub fn parse_statsd(
                             Some(sample_idx) => {
                                 match &src[offset..(offset + sample_idx)] {
                                     "g|" | "g" => {
-                                        let sample = match f64::from_str(
+                                        let scaled = match scale(
+                                            val,
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Some(f) => f,
+                                            None => return false,
                                         };
                                         metric = metric.persist(true);
                                         metric = if signed {
@@ -77,26 +91,28 @@ pub fn parse_statsd(
                                         } else {
                                             metric.kind(AggregationMethod::Set)
                                         };
-                                        metric.value(val * (1.0 / sample))
+                                        metric.value(scaled)
                                     }
                                     "c|" | "c" => {
-                                        let sample = match f64::from_str(
+                                        let scaled = match scale(
+                                            val,
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Some(f) => f,
+                                            None => return false,
                                         };
                                         metric = metric
                                             .kind(AggregationMethod::Sum)
                                             .persist(false);
-                                        metric.value(val * (1.0 / sample))
+                                        metric.value(scaled)
                                     }
                                     "ms" | "ms|" | "h" | "h|" => {
-                                        let sample = match f64::from_str(
+                                        let scaled = match scale(
+                                            val,
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Some(f) => f,
+                                            None => return false,
                                         };
                                         metric = metric.persist(false);
                                         metric = metric
@@ -113,7 +129,7 @@ pub fn parse_statsd(
                                                 break;
                                             }
                                         }
-                                        metric.value(val * (1.0 / sample))
+                                        metric.value(scaled)
                                     }
                                     _ => return false,
                                 }
diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..e4f693e 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -142,7 +142,8 @@ impl NativeStreamHandler {
             Ok(mut pyld) => {
                 for mut point in pyld.take_points().into_iter() {
                     let name: String = point.take_name();
-                    let smpls: Vec<f64> = point.take_samples();
+                    let mut smpls: Vec<f64> = point.take_samples();
+                    smpls.retain(|smpl| smpl.is_finite());
                     let aggr_type: AggregationMethod = point.get_method();
                     let mut meta = point.take_metadata();
                     // FIXME #166
-- 
2.43.0


From 1f1ddb46fc96d79bc5742cad16db1cabe64ca26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 18/70] fix: bin native points by the bounds their client asked
 for

---
 src/source/native.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/source/native.rs b/src/source/native.rs
index e4f693e..207f12f 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -137,8 +137,6 @@ impl NativeStreamHandler {
         buf: &mut Vec<u8>,
     ) -> Result<(), protobuf::ProtobufError> {
         match protobuf::parse_from_bytes::<Payload>(buf) {
-            // TODO we have to handle bin_bounds. We'll use samples to get
-            // the values of each bounds' counter.
             Ok(mut pyld) => {
                 for mut point in pyld.take_points().into_iter() {
                     let name: String = point.take_name();
@@ -165,7 +163,15 @@ impl NativeStreamHandler {
                             metric.kind(metric::AggregationMethod::Summarize)
                         }
                         AggregationMethod::BIN => {
-                            metric.kind(metric::AggregationMethod::Histogram)
+                            let mut bounds: Vec<f64> = point.take_bin_bounds();
+                            bounds.retain(|bound| bound.is_finite());
+                            let metric =
+                                metric.kind(metric::AggregationMethod::Histogram);
+                            if bounds.is_empty() {
+                                metric
+                            } else {
+                                metric.bounds(bounds)
+                            }
                         }
                     };
                     metric = metric.persist(point.get_persisted());
-- 
2.43.0


From 10231ea4f3d10dccc097235aa550677bf4715e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 19/70] fix: refuse a native source's unknown forward with a
 failure status

Native sources were left out of the topology check, and the later check
that did notice exited with status 0.
---
 src/bin/cernan.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..337fa0c 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -52,7 +52,7 @@ fn populate_forwards(
                     "Unable to fulfill configured forward: {} => {}",
                     config_path, fwd
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
@@ -774,7 +775,7 @@ fn main() {
                     "Unable to fulfill configured top-level flush to {}",
                     destination
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
-- 
2.43.0


From 1588faa7b4cccd2264482e930f4ceab83875b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 20/70] fix: shut down components that nothing forwards to

They wait for a Shutdown from upstream, and without an upstream cernan
never exited.
---
 src/bin/cernan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 337fa0c..cc47e86 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -20,6 +20,7 @@ use cernan::metric;
 use cernan::sink::Sink;
 use cernan::source::Source;
 use cernan::thread::Stoppable;
+use cernan::util;
 use chrono::Utc;
 use std::collections::{HashMap, HashSet};
 use std::mem;
@@ -652,6 +653,15 @@ fn main() {
         }
     };
 
+    // Filters and sinks that nothing forwards to have no upstream to shut them
+    // down. We do so ourselves.
+    let mut orphans: util::Channel = Vec::new();
+    for (config_path, snd) in &senders {
+        if !config_topology.values().any(|fwds| fwds.contains(config_path)) {
+            orphans.push(snd.clone());
+        }
+    }
+
     // SOURCES
     //
     if let Some(cfg_map) = mem::replace(&mut args.native_server_config, None) {
@@ -802,6 +812,7 @@ fn main() {
         info!("Signaling shutdown to {:?}", id);
         source_worker.shutdown();
     }
+    util::send(&mut orphans, metric::Event::Shutdown);
 
     join_all(sinks);
     join_all(filters);
-- 
2.43.0


From 5b9c3b1dbff3e9224ad09ca9d134271e8881cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 21/70] fix: pass raw events through the flush boundary filter

An event without a timestamp was dropped.
---
 src/filter/flush_boundary_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..448f8bf 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,6 +84,9 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // Only events with a timestamp are ever held.
+                res.push(event);
             }
         }
         Ok(())
-- 
2.43.0


From 92e0767d63a27483744496a71c3e1e8a6dcd6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 22/70] fix: release what a flush boundary filter holds at
 shutdown

Its held events were lost when cernan stopped.
---
 src/filter/flush_boundary_filter.rs | 6 ++++++
 src/filter/mod.rs                   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 448f8bf..f6f1d6e 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -74,6 +74,12 @@ impl filter::Filter for FlushBoundaryFilter {
             }
             res.push(event);
             self.holds = too_new;
+        } else if event == metric::Event::Shutdown {
+            // No pulse follows that could release what is held.
+            for mut hold in self.holds.drain(..) {
+                res.append(&mut hold.events);
+            }
+            res.push(event);
         } else {
             let opt_ts = event.timestamp();
             if let Some(ts) = opt_ts {
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index d1aea30..25680dc 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -87,6 +87,13 @@ pub trait Filter {
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        // The filter may have held events back.
+                        let _ = self.process(metric::Event::Shutdown, &mut events);
+                        for ev in events.drain(..) {
+                            if ev != metric::Event::Shutdown {
+                                util::send(&mut chans, ev)
+                            }
+                        }
                         util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
-- 
2.43.0


From bb0006afb3686a18df70739085277ffb809c8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 23/70] fix: age flush boundary holds once per pulse

With several upstreams each pulse arrives several times, and held events
were released that many times too early.
---
 src/filter/flush_boundary_filter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index f6f1d6e..59edb1f 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -10,6 +10,7 @@ use std::mem;
 pub struct FlushBoundaryFilter {
     tolerance: usize,
     holds: Vec<Hold>,
+    last_flush_idx: u64,
 }
 
 /// Configuration for `FlushBoundaryFilter`
@@ -49,6 +50,7 @@ impl FlushBoundaryFilter {
         FlushBoundaryFilter {
             tolerance: config.tolerance,
             holds: Vec::new(),
+            last_flush_idx: 0,
         }
     }
 }
@@ -59,7 +61,12 @@ impl filter::Filter for FlushBoundaryFilter {
         event: metric::Event,
         res: &mut Vec<metric::Event>,
     ) -> Result<(), filter::FilterError> {
-        if event.is_timer_flush() {
+        if let metric::Event::TimerFlush(idx) = event {
+            // A pulse arrives once from each upstream.
+            if idx <= self.last_flush_idx {
+                return Ok(());
+            }
+            self.last_flush_idx = idx;
             for hold in &mut self.holds {
                 hold.age += 1;
             }
-- 
2.43.0


From 2a20baaf2d2e5cf320a4eacafaaa1854f1bc5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 24/70] fix: measure the flush boundary tolerance in seconds

It is documented in seconds and was taken as a number of pulses, of which
there are a hundred each second.
---
 src/filter/flush_boundary_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 59edb1f..edbd862 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -1,5 +1,6 @@
 use crate::filter;
 use crate::metric;
+use crate::source::flushes_per_second;
 use std::mem;
 
 /// Buffer events for a set period of flushes
@@ -48,7 +49,7 @@ impl FlushBoundaryFilter {
     /// Create a new FlushBoundaryFilter
     pub fn new(config: &FlushBoundaryFilterConfig) -> FlushBoundaryFilter {
         FlushBoundaryFilter {
-            tolerance: config.tolerance,
+            tolerance: config.tolerance.saturating_mul(flushes_per_second() as usize),
             holds: Vec::new(),
             last_flush_idx: 0,
         }
-- 
2.43.0


From 678e501383701aff83d87d0eb3b4f2d86ef20c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 25/70] fix: judge the age of extreme timestamps without
 overflow

The difference to the current time overflowed, which panics or wraps
around to a recent-looking age.
---
 src/filter/delay_filter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..8a09ffd 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -47,6 +47,13 @@ impl DelayFilter {
             tolerance: config.tolerance,
         }
     }
+
+    fn accepts(&self, timestamp: i64) -> bool {
+        timestamp
+            .checked_sub(time::now())
+            .and_then(i64::checked_abs)
+            .map_or(false, |age| age < self.tolerance)
+    }
 }
 
 impl filter::Filter for DelayFilter {
@@ -57,7 +64,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if self.accepts(telem.timestamp) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +72,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if self.accepts(log.time) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From 507ea6a6f03194a1169a484d0b27df851f4199ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 26/70] fix: do not drop Shutdown on a full queue

---
 src/util.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f1a59cf..4de76f1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -43,6 +43,14 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
                 // `Error::Full`, meaning that all disk and memory buffer space
                 // is consumed. We drop the event on the floor in that case.
                 match res.1 {
+                    hopper::Error::Full if is_shutdown => {
+                        // A consumer that never hears of the shutdown never
+                        // ends, so this one event waits for room.
+                        time::delay(1);
+                        flush(chan);
+                        snd_event = res.0;
+                        continue;
+                    }
                     hopper::Error::Full => {
                         UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                         break;
@@ -57,6 +65,12 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     }
     while let Err(res) = chans[0].send(event) {
         match res.1 {
+            hopper::Error::Full if is_shutdown => {
+                time::delay(1);
+                flush(&mut chans[0]);
+                event = res.0;
+                continue;
+            }
             hopper::Error::Full => {
                 UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                 break;
@@ -72,15 +86,20 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
         // a later send finds room in memory. Nothing is sent after Shutdown, so
         // we wait for that room here.
         for chan in chans.iter_mut() {
-            let mut attempts = 0;
-            while chan.flush().is_err() {
-                attempts += 1;
-                time::delay(attempts);
-            }
+            flush(chan);
         }
     }
 }
 
+/// Publish what a queue has spilled to disk, waiting for room to do so.
+fn flush(chan: &mut hopper::Sender<metric::Event>) {
+    let mut attempts = 0;
+    while chan.flush().is_err() {
+        attempts += 1;
+        time::delay(attempts);
+    }
+}
+
 /// Determine the state of a buffering queue, whether open or closed.
 ///
 /// Cernan is architected to be a push-based system. It copes with demand rushes
-- 
2.43.0


From 806b0909b114894b4ce2121e4636891e2dec2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 27/70] fix: refuse an avro container whose header names
 lengths it does not contain

---
 src/source/avro.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index c81ce36..dcc0f77 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -138,6 +138,61 @@ fn read_header(
     Ok((header, Some(m)))
 }
 
+/// Reads one avro `long`.
+fn read_long(cursor: &mut Cursor<&[u8]>) -> io::Result<i64> {
+    let mut num: u64 = 0;
+    let mut shift = 0;
+    loop {
+        let byte = cursor.read_u8()?;
+        if shift > 63 || (shift == 63 && byte > 1) {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+        num |= u64::from(byte & 0x7f) << shift;
+        if byte & 0x80 == 0 {
+            return Ok((num >> 1) as i64 ^ -((num & 1) as i64));
+        }
+        shift += 7;
+    }
+}
+
+/// Skips avro `bytes`, refusing a length beyond what is there to be read.
+fn skip_bytes(cursor: &mut Cursor<&[u8]>) -> io::Result<()> {
+    let len = read_long(cursor)?;
+    let left = cursor.get_ref().len() as u64 - cursor.position();
+    if len < 0 || len as u64 > left {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    let position = cursor.position() + len as u64;
+    cursor.set_position(position);
+    Ok(())
+}
+
+/// Checks the lengths given in the header of an avro container.
+///
+/// The deserializer allocates whatever length a header names before it reads
+/// the bytes, so no length may reach it that the blob does not contain.
+fn check_container_lengths(blob: &[u8]) -> io::Result<()> {
+    let mut cursor = Cursor::new(blob);
+    let mut magic = [0; 4];
+    cursor.read_exact(&mut magic)?;
+    loop {
+        let mut entries = read_long(&mut cursor)?;
+        if entries < 0 {
+            read_long(&mut cursor)?; // size of the block in bytes
+            entries = entries
+                .checked_neg()
+                .ok_or_else(|| io::Error::from(io::ErrorKind::InvalidData))?;
+        }
+        if entries == 0 {
+            return Ok(());
+        }
+        for _ in 0..entries {
+            skip_bytes(&mut cursor)?; // key
+            skip_bytes(&mut cursor)?; // value
+        }
+    }
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
@@ -155,6 +210,13 @@ impl From<Vec<u8>> for Payload {
             return Payload::Invalid("Failed to read avro payload!".to_string());
         }
 
+        if let Err(e) = check_container_lengths(&avro_blob[..]) {
+            return Payload::Invalid(format!(
+                "Failed to read container header - {:?}.",
+                e
+            ));
+        }
+
         // TODO - Enforce configurable type naming requirements.
         // Check that the blob provided is valid Avro.
         if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {
-- 
2.43.0


From 70bd2e0ac23e6cbdaa40ccaeea810582273c360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 28/70] fix: leave nothing on the Lua stack after a failed
 script call

---
 src/filter/programmable_filter.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..b9c1615 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -589,6 +589,7 @@ fn run_lua_func(
 
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.pop(1);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -608,11 +609,15 @@ fn run_lua_func(
         }
         Ok(())
     } else {
-        let error = if let Some(error) = state.to_str(-1) {
-            error
-        } else {
-            "While handling a lua error, lua error message was not a string"
-        };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        // Not `to_str`, which may run a metamethod of the error value and
+        // leaves what it converted on the stack.
+        let error = state
+            .to_str_in_place(-1)
+            .unwrap_or(
+                "While handling a lua error, lua error message was not a string",
+            )
+            .to_owned();
+        state.pop(1);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From 6d0a6a60830cb21e23922abc7b174afc7f94186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 29/70] fix: tick a script once per pulse even when it fails

---
 src/filter/programmable_filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index b9c1615..d51cc61 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -551,9 +551,7 @@ impl filter::Filter for ProgrammableFilter {
             metric::Event::TimerFlush(flush_idx) => {
                 let pyld = Payload::blank(&self.global_tags, self.path.as_str());
                 let result = run_lua_func(&mut self.state, "tick", res, pyld);
-                if result.is_ok() {
-                    self.last_flush_idx = flush_idx;
-                }
+                self.last_flush_idx = flush_idx;
                 res.push(event);
                 result
             }
-- 
2.43.0


From 5781519d54e548a279814f35bb93defee3d9d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 30/70] fix: read the percentile of metric_query from its own
 argument

---
 src/filter/programmable_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index d51cc61..1608d3c 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -383,7 +383,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let prcnt = state.to_number(2);
+        let prcnt = state.to_number(3);
         let idx = idx(state.to_integer(2), (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
-- 
2.43.0


From 47bddc6d95c47e2591a04370d7436b5ab36b84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 31/70] fix: raise a script error for a wrong payload or index
 argument

---
 src/filter/programmable_filter.rs | 127 ++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 42 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 1608d3c..59d752e 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -1,10 +1,12 @@
 use crate::filter;
 use crate::metric;
-use libc::c_int;
+use libc::{c_int, c_void};
 use mond;
 use mond::ffi::lua_State;
 use mond::{Function, State, ThreadStatus};
+use std::cell::Cell;
 use std::path::PathBuf;
+use std::ptr;
 
 struct Payload<'a> {
     metrics: Vec<Box<metric::Telemetry>>,
@@ -13,11 +15,45 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
+thread_local! {
+    /// The payload of the script call running in this thread, null if none is.
+    static RUNNING: Cell<*mut c_void> = Cell::new(ptr::null_mut());
+}
+
+fn idx(n: i64, top: usize) -> Option<usize> {
+    let top = top as i64;
+    let i = if n < 0 { top + n } else { n - 1 };
+    if 0 <= i && i < top {
+        Some(i as usize)
     } else {
-        (n - 1) as usize
+        None
+    }
+}
+
+/// Raise an error in the calling script. Control does not return, nor are
+/// destructors run.
+fn raise(state: &mut State, msg: &str) -> ! {
+    state.location(1);
+    state.push_string(msg);
+    state.concat(2);
+    state.error()
+}
+
+/// The payload a script gave as first argument. Anything but the payload of the
+/// running call is an error in the script.
+fn payload_arg<'a>(state: &mut State) -> *mut Payload<'a> {
+    let pyld = state.to_userdata(1);
+    if pyld.is_null() || pyld != RUNNING.with(Cell::get) {
+        raise(state, "bad argument #1 (payload expected)")
+    }
+    pyld as *mut Payload
+}
+
+/// The position among `top` items a script gave as second argument.
+fn idx_arg(state: &mut State, top: usize) -> usize {
+    match idx(state.to_integer(2), top) {
+        Some(i) => i,
+        None => raise(state, "bad argument #2 (index out of range)"),
     }
 }
 
@@ -60,8 +96,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -69,8 +105,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -78,8 +114,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -87,16 +123,21 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        (*pyld).metrics[idx].name = state.check_string(3).into();
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
+        match state.to_str_in_place(3).map(|n| n.to_owned()) {
+            Some(name) => {
+                (*pyld).metrics[idx].name = name;
+            }
+            None => raise(&mut state, "bad argument #3 (string expected)"),
+        }
         0
     }
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_metric(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload_arg(&mut state);
         let val = state.to_number(3);
         match state.to_str(2) {
             Some(name) => {
@@ -117,16 +158,16 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_metrics(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload_arg(&mut state);
         (*pyld).metrics.clear();
         0
     }
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload_arg(&mut state);
         match state.to_str(2) {
             Some(line) => {
                 let l = metric::LogLine::new((*pyld).path, line)
@@ -142,8 +183,8 @@ impl<'a> Payload<'a> {
 
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_clear_logs(L: *mut lua_State) -> c_int {
-        let state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let mut state = State::from_ptr(L);
+        let pyld = payload_arg(&mut state);
         (*pyld).logs.clear();
         0
     }
@@ -167,8 +208,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -191,8 +232,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -213,8 +254,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -237,8 +278,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -265,8 +306,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -293,8 +334,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -321,8 +362,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -338,8 +379,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -360,8 +401,8 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let pyld = payload_arg(&mut state);
+        let idx = idx_arg(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -382,9 +423,9 @@ impl<'a> Payload<'a> {
     #[allow(non_snake_case)]
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
-        let pyld = state.to_userdata(1) as *mut Payload;
+        let pyld = payload_arg(&mut state);
         let prcnt = state.to_number(3);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx_arg(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
@@ -597,7 +638,9 @@ fn run_lua_func(
     state.get_metatable_from_registry("payload");
     state.set_metatable(-2);
 
+    RUNNING.with(|p| p.set(&mut pyld as *mut Payload as *mut c_void));
     let status = state.pcall(1, 0, 0); // 1 arg, 0 return values, no error handler func
+    RUNNING.with(|p| p.set(ptr::null_mut()));
     if let ThreadStatus::Ok = status {
         for lg in pyld.logs {
             res.push(metric::Event::new_log(*lg));
-- 
2.43.0


From eef515e758bf77588b36df1517bee2f128b7f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 32/70] fix: treat a missing script argument as missing

---
 src/filter/programmable_filter.rs | 37 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 59d752e..a5f0470 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -57,6 +57,15 @@ fn idx_arg(state: &mut State, top: usize) -> usize {
     }
 }
 
+/// The string a script gave as argument `n`, if it gave any.
+fn str_arg(state: &State, n: i32) -> Option<&str> {
+    if state.is_none_or_nil(n) {
+        None
+    } else {
+        state.to_str(n)
+    }
+}
+
 impl<'a> Payload<'a> {
     fn from_metric(
         m: metric::Telemetry,
@@ -139,7 +148,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let val = state.to_number(3);
-        match state.to_str(2) {
+        match str_arg(&state, 2) {
             Some(name) => {
                 let m = metric::Telemetry::new()
                     .name(name)
@@ -168,7 +177,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_push_log(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
-        match state.to_str(2) {
+        match str_arg(&state, 2) {
             Some(line) => {
                 let l = metric::LogLine::new((*pyld).path, line)
                     .overlay_tags_from_map((*pyld).global_tags);
@@ -210,7 +219,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -234,7 +243,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
                     state.push_string(v);
@@ -256,7 +265,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
                     Some(v) => {
@@ -280,8 +289,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
+            Some(key) => match str_arg(&state, 4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -308,8 +317,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
+            Some(key) => match str_arg(&state, 4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -336,8 +345,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
-            Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
+            Some(key) => match str_arg(&state, 4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
                     Some(old_v) => {
                         state.push_string(&old_v);
@@ -364,7 +373,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
             }
@@ -381,7 +390,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).metrics.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
@@ -403,7 +412,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = payload_arg(&mut state);
         let idx = idx_arg(&mut state, (*pyld).logs.len());
-        match state.to_str(3).map(|k| k.to_owned()) {
+        match str_arg(&state, 3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
                     state.push_string(&old_v);
-- 
2.43.0


From d58f664e703b22978b4541e0c931163c8cceb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 33/70] fix: accept an event whose age equals the delay
 filter's tolerance

---
 src/filter/delay_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 8a09ffd..29a2e1c 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -52,7 +52,7 @@ impl DelayFilter {
         timestamp
             .checked_sub(time::now())
             .and_then(i64::checked_abs)
-            .map_or(false, |age| age < self.tolerance)
+            .map_or(false, |age| age <= self.tolerance)
     }
 }
 
-- 
2.43.0


From 0fd4140b386a6462685274ce1971f11979b38056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 34/70] fix: format timestamps beyond the range of dates

---
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/time.rs                      | 16 ++++++++++++++++
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..4f40ec8 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = time::utc(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..0cfa472 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time::utc;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = utc(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..e06f896 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time::utc;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = utc(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = utc(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..bd521c7 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -17,6 +19,20 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// Convert epoch seconds into a date and time in UTC
+///
+/// Seconds beyond the range of dates give the nearest date in it.
+pub fn utc(secs: i64) -> DateTime<Utc> {
+    let naive_time = NaiveDateTime::from_timestamp_opt(secs, 0).unwrap_or_else(|| {
+        if secs < 0 {
+            MIN_DATE.and_hms(0, 0, 0)
+        } else {
+            MAX_DATE.and_hms(23, 59, 59)
+        }
+    });
+    DateTime::from_utc(naive_time, Utc)
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From 0c15c85f3c57d1e2b1e63bce7bf9c3b35c1e2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 35/70] fix: never move wavefront's last seen time of a series
 backward

---
 src/sink/wavefront.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..043e2cc 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -401,7 +401,11 @@ impl Wavefront {
             // When we update the last_seen map we have to be sure that if the new
             // telem has a point with a timestamp greater than the one we have
             // stored we replace the timestamp. Else, we ignore.
-            tmp_last_seen.insert(pad.hash(), pad.timestamp());
+            let hash = pad.hash();
+            let ts = pad.timestamp();
+            if last_seen.get(&hash).map_or(true, |seen| ts > *seen) {
+                tmp_last_seen.insert(hash, ts);
+            }
 
             match pad {
                 Pad::Zero(value, ts) => {
-- 
2.43.0


From 8b862c3058060caa1ef1cff3ee1388a9b6d38b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 36/70] fix: pad a series since the last flush whatever series
 follows it

---
 Cargo.lock            | 1676 +++++++++++++++++++++--------------------
 src/sink/wavefront.rs |   48 +-
 2 files changed, 866 insertions(+), 858 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 25701a6..53295e6 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,2413 +1,2415 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "adler32"
 version = "1.0.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6cbd0b9af8587c72beadc9f72d35b9fbb070982c9e6203e46e93f10df25f8f45"
 
 [[package]]
 name = "aho-corasick"
 version = "0.6.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d6531d44de723825aa81398a6415283229725a00fa30713812ab9323faa82fc4"
 dependencies = [
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "memchr",
 ]
 
 [[package]]
 name = "alga"
 version = "0.5.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "88c4144cd393075e782c633b4f9c5dea4811aed18ed59f518ae2ca2b553e3d09"
 dependencies = [
- "approx 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-complex 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
+ "approx",
+ "num-complex",
+ "num-traits 0.1.43",
 ]
 
 [[package]]
 name = "ansi_term"
 version = "0.11.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ee49baf6cb617b853aa8d93bf420db2383fab46d314482ca2803b40d5fde979b"
 dependencies = [
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "approx"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "08abcc3b4e9339e33a3d0a5ed15d84a687350c05689d825e0f6655eef9e76a94"
 
 [[package]]
 name = "arrayvec"
 version = "0.4.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a1e964f9e24d588183fcb43503abda40d288c8657dfc27311516ce2f05675aef"
 dependencies = [
- "nodrop 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)",
+ "nodrop",
 ]
 
 [[package]]
 name = "ascii"
 version = "0.8.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "97be891acc47ca214468e09425d02cef3af2c94d0d82081cd02061f996802f14"
 
 [[package]]
 name = "atty"
 version = "0.2.11"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9a7d5b8723950951411ee34d271d99dddcc2035a16ab25310ea2c8cfd4369652"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "termion 1.5.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "termion",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "backtrace"
 version = "0.3.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dbdd17cd962b570302f5297aea8648d5923e22e555c2ed2d8b2e34eca646bf6d"
 dependencies = [
- "backtrace-sys 0.1.23 (registry+https://github.com/rust-lang/crates.io-index)",
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "rustc-demangle 0.1.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "backtrace-sys",
+ "cfg-if",
+ "libc",
+ "rustc-demangle",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "backtrace-sys"
 version = "0.1.23"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bff67d0c06556c0b8e6b5f090f0eac52d950d9dfd1d35ba04e4ca3543eaf6a7e"
 dependencies = [
- "cc 1.0.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cc",
+ "libc",
 ]
 
 [[package]]
 name = "base64"
 version = "0.9.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9263aa6a38da271eec5c91a83ce1e800f093c8535788d403d626d8d5c3f8f007"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "safemem 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "safemem",
 ]
 
 [[package]]
 name = "bincode"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bda13183df33055cbb84b847becce220d392df502ebe7a4a78d7021771ed94d0"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "bit-set"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d9bf6104718e80d7b26a68fdbacff3481cfc05df670821affc7e9cbc1884400c"
 dependencies = [
- "bit-vec 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bit-vec",
 ]
 
 [[package]]
 name = "bit-vec"
 version = "0.4.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "02b4ff8b16e6076c3e14220b39fbc1fabb6737522281a388998046859400895f"
 
 [[package]]
 name = "bitflags"
 version = "0.9.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4efd02e230a02e18f92fc2735f44597385ed02ad8f831e7c1c1156ee5e1ab3a5"
 
 [[package]]
 name = "bitflags"
 version = "1.0.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d0c54bb8f454c567f21197eefcdbf5679d0bd99f2ddbe52e84c77061952e6789"
 
 [[package]]
 name = "build_const"
 version = "0.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "39092a32794787acd8525ee150305ff051b0aa6cc2abaf193924f5ab05425f39"
 
 [[package]]
 name = "byteorder"
 version = "1.2.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "74c0b906e9446b0a2e4f760cdb3fa4b2c48cdc6db8766a845c54b6ff063fd2e9"
 
 [[package]]
 name = "bytes"
 version = "0.4.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7dd32989a66957d3f0cba6588f15d4281a733f4e9ffc43fcd2385f57d3bf99ff"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "iovec",
 ]
 
 [[package]]
 name = "cast"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "926013f2860c46252efceabb19f4a6b308197505082c609025aa6706c011d427"
 
 [[package]]
 name = "cc"
 version = "1.0.17"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "49ec142f5768efb5b7622aebc3fdbdbb8950a4b9ba996393cb76ef7466e8747d"
 
 [[package]]
 name = "cernan"
 version = "0.9.2-pre"
 dependencies = [
- "base64 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "chan-signal 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "chrono 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "clap 2.32.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "coco 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "criterion 0.2.9 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic_types 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "fern 0.5.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "flate2 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "glob 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "hopper 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "mond 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "openssl-probe 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "protobuf 1.7.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "quantiles 0.7.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "quickcheck 0.6.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.5.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "rdkafka 0.17.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "reqwest 0.8.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "seahash 3.0.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde-avro 0.5.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "slab 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tempdir 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "tiny_http 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "toml 0.4.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "uuid 0.6.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "base64",
+ "byteorder",
+ "chan-signal",
+ "chrono",
+ "clap",
+ "coco",
+ "criterion",
+ "elastic",
+ "elastic_types",
+ "fern",
+ "flate2 1.0.1",
+ "futures",
+ "glob",
+ "hopper",
+ "lazy_static 1.2.0",
+ "libc",
+ "log 0.4.1",
+ "mio",
+ "mond",
+ "openssl-probe",
+ "protobuf",
+ "quantiles",
+ "quickcheck",
+ "rand 0.5.0",
+ "rdkafka",
+ "regex",
+ "reqwest",
+ "seahash",
+ "serde 1.0.63",
+ "serde-avro",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
+ "slab 0.4.0",
+ "tempdir",
+ "tiny_http",
+ "toml",
+ "url",
+ "uuid 0.6.5",
 ]
 
 [[package]]
 name = "cfg-if"
 version = "0.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "405216fd8fe65f718daa7102ea808a946b6ce40c742998fbfd3463645552de18"
 
 [[package]]
 name = "cgmath"
 version = "0.16.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "64a4b57c8f4e3a2e9ac07e0f6abc9c24b6fc9e1b54c3478cfb598f3d0023e51c"
 dependencies = [
- "approx 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "approx",
+ "num-traits 0.1.43",
+ "rand 0.4.2",
 ]
 
 [[package]]
 name = "chan"
 version = "0.1.21"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9af7c487bb99c929ba2715b1a3a7bf45f5062bf5b6eae5d32b292a96c5865172"
 dependencies = [
- "rand 0.3.22 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rand 0.3.22",
 ]
 
 [[package]]
 name = "chan-signal"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f1f1e11f6e1c14c9e805a87c622cb8fcb636283b3119a2150af390cc6702d7fe"
 dependencies = [
- "bit-set 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "chan 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bit-set",
+ "chan",
+ "lazy_static 0.2.11",
+ "libc",
 ]
 
 [[package]]
 name = "chrono"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1cce36c92cb605414e9b824f866f5babe0a0368e39ea07393b9b63cf3844c0e6"
 dependencies = [
- "num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "time 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-integer",
+ "num-traits 0.2.4",
+ "serde 1.0.63",
+ "time",
 ]
 
 [[package]]
 name = "chunked_transfer"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "498d20a7aaf62625b9bf26e637cf7736417cde1d0c99f1d04d1170229a85cf87"
 
 [[package]]
 name = "clamp"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b0113a8ae379a061c89a71d57a809439f5ce550b6a76063ab5ba2b1cb180971f"
 
 [[package]]
 name = "clap"
 version = "2.32.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b957d88f4b6a63b9d70d5f454ac8011819c6efa7727858f458ab71c756ce2d3e"
 dependencies = [
- "ansi_term 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "atty 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "strsim 0.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "textwrap 0.10.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "vec_map 0.8.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "ansi_term",
+ "atty",
+ "bitflags 1.0.3",
+ "strsim",
+ "textwrap",
+ "unicode-width",
+ "vec_map",
 ]
 
 [[package]]
 name = "cloudabi"
 version = "0.0.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ddfc5b9aa5d4507acaf872de71051dfd0e309860e88966e1051e462a077aac4f"
 dependencies = [
- "bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bitflags 1.0.3",
 ]
 
 [[package]]
 name = "coco"
 version = "0.3.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "04d5eef9c9354cbb35d5069c39054c657469d2aa7789d4c71d0a6b686dc48bea"
 dependencies = [
- "either 1.5.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "scopeguard 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "either",
+ "scopeguard",
 ]
 
 [[package]]
 name = "core-foundation"
 version = "0.2.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "25bfd746d203017f7d5cbd31ee5d8e17f94b6521c7af77ece6c9e4b2d4b16c67"
 dependencies = [
- "core-foundation-sys 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "core-foundation-sys",
+ "libc",
 ]
 
 [[package]]
 name = "core-foundation-sys"
 version = "0.2.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "065a5d7ffdcbc8fa145d6f0746f3555025b9097a9e9cda59f7467abae670c78d"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
 ]
 
 [[package]]
 name = "crc"
 version = "1.8.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d663548de7f5cca343f1e0a48d14dcfb0e9eb4e079ec58883b7251539fa10aeb"
 dependencies = [
- "build_const 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "build_const",
 ]
 
 [[package]]
 name = "criterion"
 version = "0.2.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4f80c6ccd9d5cdeb74d67d2d5b9ee84e0a2b5eb0331bc2209a9796652dd7fddf"
 dependencies = [
- "atty 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "cast 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "clap 2.32.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "criterion-plot 0.3.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "csv 1.0.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "itertools 0.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_core 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_os 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_xoshiro 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "rayon 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "tinytemplate 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "walkdir 2.2.7 (registry+https://github.com/rust-lang/crates.io-index)",
+ "atty",
+ "cast",
+ "clap",
+ "criterion-plot",
+ "csv",
+ "itertools",
+ "lazy_static 1.2.0",
+ "num-traits 0.2.4",
+ "rand_core 0.3.1",
+ "rand_os",
+ "rand_xoshiro",
+ "rayon",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
+ "tinytemplate",
+ "walkdir",
 ]
 
 [[package]]
 name = "criterion-plot"
 version = "0.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4107e4a5abb94267e0149922b8ff49dc70a87cc202820fdbfc0d3e1edbdc4b16"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "cast 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "itertools 0.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "cast",
+ "itertools",
 ]
 
 [[package]]
 name = "crossbeam-deque"
 version = "0.2.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f739f8c5363aca78cfb059edf753d8f0d36908c348f3d8d1503f03d8b75d9cf3"
 dependencies = [
- "crossbeam-epoch 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "crossbeam-utils 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "crossbeam-epoch 0.3.1",
+ "crossbeam-utils 0.2.2",
 ]
 
 [[package]]
 name = "crossbeam-deque"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fe8153ef04a7594ded05b427ffad46ddeaf22e63fd48d42b3e1e3bb4db07cae7"
 dependencies = [
- "crossbeam-epoch 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "crossbeam-utils 0.3.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "crossbeam-epoch 0.4.1",
+ "crossbeam-utils 0.3.2",
 ]
 
 [[package]]
 name = "crossbeam-epoch"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "927121f5407de9956180ff5e936fe3cf4324279280001cd56b669d28ee7e9150"
 dependencies = [
- "arrayvec 0.4.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "crossbeam-utils 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "memoffset 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "nodrop 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)",
- "scopeguard 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "arrayvec",
+ "cfg-if",
+ "crossbeam-utils 0.2.2",
+ "lazy_static 1.2.0",
+ "memoffset",
+ "nodrop",
+ "scopeguard",
 ]
 
 [[package]]
 name = "crossbeam-epoch"
 version = "0.4.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9b4e2817eb773f770dcb294127c011e22771899c21d18fce7dd739c0b9832e81"
 dependencies = [
- "arrayvec 0.4.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "crossbeam-utils 0.3.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "memoffset 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "scopeguard 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "arrayvec",
+ "cfg-if",
+ "crossbeam-utils 0.3.2",
+ "lazy_static 1.2.0",
+ "memoffset",
+ "scopeguard",
 ]
 
 [[package]]
 name = "crossbeam-utils"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2760899e32a1d58d5abb31129f8fae5de75220bc2176e77ff7c627ae45c918d9"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
 ]
 
 [[package]]
 name = "crossbeam-utils"
 version = "0.3.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d636a8b3bcc1b409d7ffd3facef8f21dcb4009626adbd0c5e6c4305c07253c7b"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
 ]
 
 [[package]]
 name = "csv"
 version = "1.0.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9fd1c44c58078cfbeaf11fbb3eac9ae5534c23004ed770cc4bfb48e658ae4f04"
 dependencies = [
- "csv-core 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "csv-core",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "csv-core"
 version = "0.1.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fa5cdef62f37e6ffe7d1f07a381bc0db32b7a3ff1cac0de56cb0d81e71f53d65"
 dependencies = [
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "memchr",
 ]
 
 [[package]]
 name = "dtoa"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "09c3753c3db574d215cba4ea76018483895d7bff25a31b49ba45db21c48e50ab"
 
 [[package]]
 name = "either"
 version = "1.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3be565ca5c557d7f59e7cfcf1844f9e3033650c929c6566f511e8005f205c1d0"
 
 [[package]]
 name = "elastic"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03978a34da45e1e7b13a553bd8eeb2f3b58f28e12dbca312c567b142c4b80ef1"
 dependencies = [
- "elastic_reqwest 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic_types 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "error-chain 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures-cpupool 0.1.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.3.9 (registry+https://github.com/rust-lang/crates.io-index)",
- "reqwest 0.8.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "uuid 0.6.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "elastic_reqwest",
+ "elastic_types",
+ "error-chain 0.11.0",
+ "futures",
+ "futures-cpupool",
+ "log 0.3.9",
+ "reqwest",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
+ "tokio-core",
+ "uuid 0.6.5",
 ]
 
 [[package]]
 name = "elastic_requests"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "24ce3dae2241d476179de5bb26562554f29dca969a7def655e45c085cf95b8f4"
 
 [[package]]
 name = "elastic_reqwest"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "56e3a863e25b472e527f1cba6f17a5182fa5a3db73ff93d8ada01495554ddca4"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic_requests 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic_responses 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "quick-error 1.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "reqwest 0.8.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "elastic_requests",
+ "elastic_responses",
+ "futures",
+ "quick-error",
+ "reqwest",
+ "serde 1.0.63",
+ "serde_json 1.0.18",
+ "tokio-core",
+ "url",
 ]
 
 [[package]]
 name = "elastic_responses"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4c5783170dca235427b4b9899dcb2e94242c0a578f43ed205d70ee9bd82331f0"
 dependencies = [
- "quick-error 1.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
+ "quick-error",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
 ]
 
 [[package]]
 name = "elastic_types"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "316c1399d84b6118ee629c1dc7db4ac1a14ed49b2734f9781fae39e818a0b7ec"
 dependencies = [
- "chrono 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "elastic_types_derive 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "geo 0.4.13 (registry+https://github.com/rust-lang/crates.io-index)",
- "geohash 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "geojson 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
+ "chrono",
+ "elastic_types_derive",
+ "geo 0.4.13",
+ "geohash",
+ "geojson",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
 ]
 
 [[package]]
 name = "elastic_types_derive"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc51f1864589feae06568a793ae37b8f95ca998d5a08549fa972b81ae4aa1cfa"
 dependencies = [
- "elastic_types_derive_internals 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "quote 0.3.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)",
+ "elastic_types_derive_internals",
+ "quote 0.3.15",
+ "syn 0.11.11",
 ]
 
 [[package]]
 name = "elastic_types_derive_internals"
 version = "0.20.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f30a4e93394684988b99e33d72c89f23a728a64e4c4ace621157a5b0ec6dad7"
 dependencies = [
- "chrono 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "nom 2.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "quick-error 1.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "quote 0.3.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive_internals 0.15.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)",
+ "chrono",
+ "nom",
+ "quick-error",
+ "quote 0.3.15",
+ "serde 1.0.63",
+ "serde_derive_internals",
+ "serde_json 1.0.18",
+ "syn 0.11.11",
 ]
 
 [[package]]
 name = "encoding"
 version = "0.2.33"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6b0d943856b990d12d3b55b359144ff341533e516d94098b1d3fc1ac666d36ec"
 dependencies = [
- "encoding-index-japanese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding-index-korean 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding-index-simpchinese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding-index-singlebyte 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding-index-tradchinese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding-index-japanese",
+ "encoding-index-korean",
+ "encoding-index-simpchinese",
+ "encoding-index-singlebyte",
+ "encoding-index-tradchinese",
 ]
 
 [[package]]
 name = "encoding-index-japanese"
 version = "1.20141219.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "04e8b2ff42e9a05335dbf8b5c6f7567e5591d0d916ccef4e0b1710d32a0d0c91"
 dependencies = [
- "encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding_index_tests",
 ]
 
 [[package]]
 name = "encoding-index-korean"
 version = "1.20141219.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4dc33fb8e6bcba213fe2f14275f0963fd16f0a02c878e3095ecfdf5bee529d81"
 dependencies = [
- "encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding_index_tests",
 ]
 
 [[package]]
 name = "encoding-index-simpchinese"
 version = "1.20141219.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d87a7194909b9118fc707194baa434a4e3b0fb6a5a757c73c3adb07aa25031f7"
 dependencies = [
- "encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding_index_tests",
 ]
 
 [[package]]
 name = "encoding-index-singlebyte"
 version = "1.20141219.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3351d5acffb224af9ca265f435b859c7c01537c0849754d3db3fdf2bfe2ae84a"
 dependencies = [
- "encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding_index_tests",
 ]
 
 [[package]]
 name = "encoding-index-tradchinese"
 version = "1.20141219.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fd0e20d5688ce3cab59eb3ef3a2083a5c77bf496cb798dc6fcdb75f323890c18"
 dependencies = [
- "encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "encoding_index_tests",
 ]
 
 [[package]]
 name = "encoding_index_tests"
 version = "0.1.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a246d82be1c9d791c5dfde9a2bd045fc3cbba3fa2b11ad558f27d01712f00569"
 
 [[package]]
 name = "encoding_rs"
 version = "0.7.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "98fd0f24d1fb71a4a6b9330c8ca04cbd4e7cc5d846b54ca74ff376bc7c9f798d"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
 ]
 
 [[package]]
 name = "env_logger"
 version = "0.5.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0e6e40ebb0e66918a37b38c7acab4e10d299e0463fe2af5d29b9cc86710cfd2a"
 dependencies = [
- "atty 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "humantime 1.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "termcolor 0.3.6 (registry+https://github.com/rust-lang/crates.io-index)",
+ "atty",
+ "humantime",
+ "log 0.4.1",
+ "regex",
+ "termcolor",
 ]
 
 [[package]]
 name = "error-chain"
 version = "0.9.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e92ecf0a508c8e074c0e6fa8fe0fa38414848ad4dfc4db6f74c5e9753330b248"
 dependencies = [
- "backtrace 0.3.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "backtrace",
 ]
 
 [[package]]
 name = "error-chain"
 version = "0.11.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ff511d5dc435d703f4971bc399647c9bc38e20cb41452e3b9feb4765419ed3f3"
 dependencies = [
- "backtrace 0.3.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "backtrace",
 ]
 
 [[package]]
 name = "fern"
 version = "0.5.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "de237898aa785d93b869e965132f62a525b90cce5c0bf2a395f03e62e085bc5c"
 dependencies = [
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "log 0.4.1",
 ]
 
 [[package]]
 name = "flate2"
 version = "0.2.20"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e6234dd4468ae5d1e2dbb06fe2b058696fdc50a339c68a393aefbf00bc81e423"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "miniz-sys 0.1.10 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "miniz-sys",
 ]
 
 [[package]]
 name = "flate2"
 version = "1.0.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9fac2277e84e5e858483756647a9d0aa8d9a2b7cba517fd84325a0aaa69a0909"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "miniz-sys 0.1.10 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "miniz-sys",
 ]
 
 [[package]]
 name = "foreign-types"
 version = "0.3.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f6f339eb8adc052cd2ca78910fda869aefa38d22d5cb648e6485e4d3fc06f3b1"
 dependencies = [
- "foreign-types-shared 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "foreign-types-shared",
 ]
 
 [[package]]
 name = "foreign-types-shared"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "00b0228411908ca8685dba7fc2cdd70ec9990a6e753e89b6ac91a84c40fbaf4b"
 
 [[package]]
 name = "fuchsia-zircon"
 version = "0.3.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2e9763c69ebaae630ba35f74888db465e49e259ba1bc0eda7d06f4a067615d82"
 dependencies = [
- "bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "fuchsia-zircon-sys 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bitflags 1.0.3",
+ "fuchsia-zircon-sys",
 ]
 
 [[package]]
 name = "fuchsia-zircon-sys"
 version = "0.3.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3dcaa9ae7725d12cdb85b3ad99a434db70b468c09ded17e012d86b5c1010f7a7"
 
 [[package]]
 name = "futures"
 version = "0.1.21"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1a70b146671de62ec8c8ed572219ca5d594d9b06c0b364d5e67b722fc559b48c"
 
 [[package]]
 name = "futures-cpupool"
 version = "0.1.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ab90cde24b3319636588d0c35fe03b1333857621051837ed769faefb4c2162e4"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "num_cpus 1.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "num_cpus 1.8.0",
 ]
 
 [[package]]
 name = "gcc"
 version = "0.3.54"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5e33ec290da0d127825013597dbdfc28bee4964690c7ce1166cbc2a7bd08b1bb"
 
 [[package]]
 name = "generic-array"
 version = "0.8.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fceb69994e330afed50c93524be68c42fa898c2d9fd4ee8da03bd7363acd26f2"
 dependencies = [
- "nodrop 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)",
- "typenum 1.10.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "nodrop",
+ "typenum",
 ]
 
 [[package]]
 name = "geo"
 version = "0.4.13"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03421e9865903f0015426358027cafe76d4a3858031adaa1a1f1be5e62cdbb82"
 dependencies = [
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-traits 0.1.43",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
 ]
 
 [[package]]
 name = "geo"
 version = "0.6.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0f3f587a8e7ce8b1633c44a4a24bbeb6dad09f1db740ec335a072e7a1eeb6de8"
 dependencies = [
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "spade 1.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-traits 0.1.43",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "spade",
 ]
 
 [[package]]
 name = "geohash"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d7afe5835562c47d5b81395f412ffe960020392a4172ad8477e7ff6d184e54e6"
 dependencies = [
- "geo 0.4.13 (registry+https://github.com/rust-lang/crates.io-index)",
+ "geo 0.4.13",
 ]
 
 [[package]]
 name = "geojson"
 version = "0.9.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b3484ce9e9560be7e5dffe685dfe2cf2dbf785fc3dac2f193fb42c56a797c3d1"
 dependencies = [
- "geo 0.6.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
+ "geo 0.6.3",
+ "num-traits 0.1.43",
+ "serde 1.0.63",
+ "serde_json 1.0.18",
 ]
 
 [[package]]
 name = "glob"
 version = "0.2.11"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8be18de09a56b60ed0edf84bc9df007e30040691af7acd1c41874faac5895bfb"
 
 [[package]]
 name = "hopper"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "da1c39fbe55e44bb2afd45d53394cdf2fcc30c2e4f3a2fa14fff6f6f9c2493a5"
 dependencies = [
- "bincode 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "flate2 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bincode",
+ "byteorder",
+ "flate2 1.0.1",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "httparse"
 version = "1.2.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c2f407128745b78abc95c0ffbe4e5d37427fdc0d45470710cfef8c44522a2e37"
 
 [[package]]
 name = "humantime"
 version = "1.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0484fda3e7007f2a4a0d9c3a703ca38c71c54c55602ce4660c419fd32e188c9e"
 dependencies = [
- "quick-error 1.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "quick-error",
 ]
 
 [[package]]
 name = "hyper"
 version = "0.11.27"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-dependencies = [
- "base64 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures-cpupool 0.1.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "httparse 1.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "language-tags 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mime 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "net2 0.2.32 (registry+https://github.com/rust-lang/crates.io-index)",
- "percent-encoding 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "relay 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "time 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-proto 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-service 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicase 2.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "want 0.0.4 (registry+https://github.com/rust-lang/crates.io-index)",
+checksum = "34a590ca09d341e94cddf8e5af0bbccde205d5fbc2fa3c09dd67c7f85cea59d7"
+dependencies = [
+ "base64",
+ "bytes",
+ "futures",
+ "futures-cpupool",
+ "httparse",
+ "iovec",
+ "language-tags",
+ "log 0.4.1",
+ "mime",
+ "net2",
+ "percent-encoding",
+ "relay",
+ "time",
+ "tokio-core",
+ "tokio-io",
+ "tokio-proto",
+ "tokio-service",
+ "unicase 2.1.0",
+ "want",
 ]
 
 [[package]]
 name = "hyper-tls"
 version = "0.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a5aa51f6ae9842239b0fac14af5f22123b8432b4cc774a44ff059fcba0f675ca"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "hyper 0.11.27 (registry+https://github.com/rust-lang/crates.io-index)",
- "native-tls 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-service 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-tls 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "hyper",
+ "native-tls",
+ "tokio-core",
+ "tokio-io",
+ "tokio-service",
+ "tokio-tls",
 ]
 
 [[package]]
 name = "idna"
 version = "0.1.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "014b298351066f1512874135335d62a789ffe78a9974f94b43ed5621951eaf7d"
 dependencies = [
- "matches 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-bidi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-normalization 0.1.7 (registry+https://github.com/rust-lang/crates.io-index)",
+ "matches",
+ "unicode-bidi",
+ "unicode-normalization",
 ]
 
 [[package]]
 name = "iovec"
 version = "0.1.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dbe6e417e7d0975db6512b90796e8ce223145ac4e33c377e4a42882a0e88bb08"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "winapi 0.2.8",
 ]
 
 [[package]]
 name = "itertools"
 version = "0.8.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5b8467d9c1cebe26feb08c640139247fac215782d35371ade9a2136ed6085358"
 dependencies = [
- "either 1.5.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "either",
 ]
 
 [[package]]
 name = "itoa"
 version = "0.3.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8324a32baf01e2ae060e9de58ed0bc2320c9a2833491ee36cd3b4c414de4db8c"
 
 [[package]]
 name = "itoa"
 version = "0.4.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c069bbec61e1ca5a596166e55dfe4773ff745c3d16b700013bcaff9a6df2c682"
 
 [[package]]
 name = "kernel32-sys"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7507624b29483431c0ba2d82aece8ca6cdba9382bff4ddd0f7490560c056098d"
 dependencies = [
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-build 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi 0.2.8",
+ "winapi-build",
 ]
 
 [[package]]
 name = "language-tags"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a91d884b6667cd606bb5a69aa0c99ba811a115fc68915e7056ec08a46e93199a"
 
 [[package]]
 name = "lazy_static"
 version = "0.2.11"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "76f033c7ad61445c5b347c7382dd1237847eb1bce590fe50365dcb33d546be73"
 
 [[package]]
 name = "lazy_static"
 version = "1.2.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a374c89b9db55895453a74c1e38861d9deec0b01b405a82516e9d5de4820dea1"
 
 [[package]]
 name = "lazycell"
 version = "0.6.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a6f08839bc70ef4a3fe1d566d5350f519c5912ea86be0df1740a7d247c7fc0ef"
 
 [[package]]
 name = "libc"
 version = "0.2.41"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ac8ebf8343a981e2fa97042b14768f02ed3e1d602eac06cae6166df3c8ced206"
 
 [[package]]
 name = "libflate"
 version = "0.1.14"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1a429b86418868c7ea91ee50e9170683f47fd9d94f5375438ec86ec3adb74e8e"
 dependencies = [
- "adler32 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "crc 1.8.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "adler32",
+ "byteorder",
+ "crc",
 ]
 
 [[package]]
 name = "libz-sys"
 version = "1.0.18"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "87f737ad6cc6fd6eefe3d9dc5412f1573865bded441300904d2f42269e140f16"
 dependencies = [
- "cc 1.0.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "pkg-config 0.3.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "vcpkg 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cc",
+ "libc",
+ "pkg-config",
+ "vcpkg",
 ]
 
 [[package]]
 name = "linked-hash-map"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7860ec297f7008ff7a1e3382d7f7e1dcd69efc94751a2284bafc3d013c2aa939"
 
 [[package]]
 name = "log"
 version = "0.3.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e19e8d5c34a3e0e2223db8e060f9e8264aeeb5c5fc64a4ee9965c062211c024b"
 dependencies = [
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "log 0.4.1",
 ]
 
 [[package]]
 name = "log"
 version = "0.4.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "89f010e843f2b1a31dbd316b3b8d443758bc634bed37aabade59c686d644e0a2"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
 ]
 
 [[package]]
 name = "matches"
 version = "0.1.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "100aabe6b8ff4e4a7e32c1c13523379802df0772b82466207ac25b013f193376"
 
 [[package]]
 name = "matrixmultiply"
 version = "0.1.14"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cac1a66eab356036af85ea093101a14223dc6e3f4c02a59b7d572e5b93270bf7"
 dependencies = [
- "rawpointer 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rawpointer",
 ]
 
 [[package]]
 name = "memchr"
 version = "2.0.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "796fba70e76612589ed2ce7f45282f5af869e0fdd7cc6199fa1aa1f1d591ba9d"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
 ]
 
 [[package]]
 name = "memoffset"
 version = "0.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0f9dc261e2b62d7a622bf416ea3c5245cdd5d9a7fcc428c0d06804dfce1775b3"
 
 [[package]]
 name = "mime"
 version = "0.3.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0b28683d0b09bbc20be1c9b3f6f24854efb1356ffcffee08ea3f6e65596e85fa"
 dependencies = [
- "unicase 2.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "unicase 2.1.0",
 ]
 
 [[package]]
 name = "mime_guess"
 version = "2.0.0-alpha.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "130ea3c9c1b65dba905ab5a4d9ac59234a9585c24d135f264e187fe7336febbd"
 dependencies = [
- "mime 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "phf 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
- "phf_codegen 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicase 1.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "mime",
+ "phf",
+ "phf_codegen",
+ "unicase 1.4.2",
 ]
 
 [[package]]
 name = "miniz-sys"
 version = "0.1.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "609ce024854aeb19a0ef7567d348aaa5a746b32fb72e336df7fcc16869d7e2b4"
 dependencies = [
- "cc 1.0.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cc",
+ "libc",
 ]
 
 [[package]]
 name = "mio"
 version = "0.6.14"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6d771e3ef92d58a8da8df7d6976bfca9371ed1de6619d9d5a5ce5b1f29b85bfe"
 dependencies = [
- "fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "fuchsia-zircon-sys 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazycell 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "miow 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "net2 0.2.32 (registry+https://github.com/rust-lang/crates.io-index)",
- "slab 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "fuchsia-zircon",
+ "fuchsia-zircon-sys",
+ "iovec",
+ "kernel32-sys",
+ "lazycell",
+ "libc",
+ "log 0.4.1",
+ "miow",
+ "net2",
+ "slab 0.4.0",
+ "winapi 0.2.8",
 ]
 
 [[package]]
 name = "miow"
 version = "0.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8c1f2f3b1cf331de6896aabf6e9d55dca90356cc9960cca7eaaf408a355ae919"
 dependencies = [
- "kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "net2 0.2.32 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "ws2_32-sys 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "kernel32-sys",
+ "net2",
+ "winapi 0.2.8",
+ "ws2_32-sys",
 ]
 
 [[package]]
 name = "mond"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "55ba3d33d9d3328a600682e8685e1fdc3d43cd93f4d287105d7f9105b05036e1"
 dependencies = [
- "bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "gcc 0.3.54 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bitflags 1.0.3",
+ "gcc",
+ "libc",
 ]
 
 [[package]]
 name = "nalgebra"
 version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f73409a1a0876d9d7be16a7fb8fd7e0658df54098210c93a17d2d5e8ca7afe4"
 dependencies = [
- "alga 0.5.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "approx 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "generic-array 0.8.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "matrixmultiply 0.1.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-complex 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "typenum 1.10.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "alga",
+ "approx",
+ "generic-array",
+ "matrixmultiply",
+ "num-complex",
+ "num-traits 0.1.43",
+ "rand 0.4.2",
+ "typenum",
 ]
 
 [[package]]
 name = "native-tls"
 version = "0.1.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f74dbadc8b43df7864539cedb7bc91345e532fdd913cfdc23ad94f4d2d40fbc0"
 dependencies = [
- "lazy_static 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "openssl 0.9.24 (registry+https://github.com/rust-lang/crates.io-index)",
- "schannel 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)",
- "security-framework 0.1.16 (registry+https://github.com/rust-lang/crates.io-index)",
- "security-framework-sys 0.1.16 (registry+https://github.com/rust-lang/crates.io-index)",
- "tempdir 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)",
+ "lazy_static 0.2.11",
+ "libc",
+ "openssl",
+ "schannel",
+ "security-framework",
+ "security-framework-sys",
+ "tempdir",
 ]
 
 [[package]]
 name = "net2"
 version = "0.2.32"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9044faf1413a1057267be51b5afba8eb1090bd2231c693664aa1db716fe1eae0"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
+ "libc",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "nodrop"
 version = "0.1.12"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9a2228dca57108069a5262f2ed8bd2e82496d2e074a06d1ccc7ce1687b6ae0a2"
 
 [[package]]
 name = "nom"
 version = "2.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cf51a729ecf40266a2368ad335a5fdde43471f545a967109cd62146ecf8b66ff"
 
 [[package]]
 name = "num"
 version = "0.1.42"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4703ad64153382334aa8db57c637364c322d3372e097840c72000dabdcf6156e"
 dependencies = [
- "num-bigint 0.1.44 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-complex 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-iter 0.1.37 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-rational 0.1.42 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-bigint",
+ "num-complex",
+ "num-integer",
+ "num-iter",
+ "num-rational",
+ "num-traits 0.2.4",
 ]
 
 [[package]]
 name = "num-bigint"
 version = "0.1.44"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e63899ad0da84ce718c14936262a41cee2c79c981fc0a0e7c7beb47d5a07e8c1"
 dependencies = [
- "num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "rustc-serialize 0.3.24 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-integer",
+ "num-traits 0.2.4",
+ "rand 0.4.2",
+ "rustc-serialize",
 ]
 
 [[package]]
 name = "num-complex"
 version = "0.1.43"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b288631d7878aaf59442cffd36910ea604ecd7745c36054328595114001c9656"
 dependencies = [
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "rustc-serialize 0.3.24 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-traits 0.2.4",
+ "rustc-serialize",
 ]
 
 [[package]]
 name = "num-integer"
 version = "0.1.38"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6ac0ea58d64a89d9d6b7688031b3be9358d6c919badcf7fbb0527ccfd891ee45"
 dependencies = [
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-traits 0.2.4",
 ]
 
 [[package]]
 name = "num-iter"
 version = "0.1.37"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "af3fdbbc3291a5464dc57b03860ec37ca6bf915ed6ee385e7c6c052c422b2124"
 dependencies = [
- "num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-integer",
+ "num-traits 0.2.4",
 ]
 
 [[package]]
 name = "num-rational"
 version = "0.1.42"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ee314c74bd753fc86b4780aa9475da469155f3848473a261d2d18e35245a784e"
 dependencies = [
- "num-bigint 0.1.44 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "rustc-serialize 0.3.24 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-bigint",
+ "num-integer",
+ "num-traits 0.2.4",
+ "rustc-serialize",
 ]
 
 [[package]]
 name = "num-traits"
 version = "0.1.43"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92e5113e9fd4cc14ded8e499429f396a20f98c772a47cc8622a736e1ec843c31"
 dependencies = [
- "num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "num-traits 0.2.4",
 ]
 
 [[package]]
 name = "num-traits"
 version = "0.2.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "775393e285254d2f5004596d69bb8bc1149754570dcc08cf30cabeba67955e28"
 
 [[package]]
 name = "num_cpus"
 version = "0.2.13"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cee7e88156f3f9e19bdd598f8d6c9db7bf4078f99f8381f43a55b09648d1a6e3"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
 ]
 
 [[package]]
 name = "num_cpus"
 version = "1.8.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c51a3322e4bca9d212ad9a158a02abc6934d005490c054a2778df73a70aa0a30"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
 ]
 
 [[package]]
 name = "openssl"
 version = "0.9.24"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a3605c298474a3aa69de92d21139fb5e2a81688d308262359d85cdd0d12a7985"
 dependencies = [
- "bitflags 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "foreign-types 0.3.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "openssl-sys 0.9.31 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bitflags 0.9.1",
+ "foreign-types",
+ "lazy_static 1.2.0",
+ "libc",
+ "openssl-sys",
 ]
 
 [[package]]
 name = "openssl-probe"
 version = "0.1.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "77af24da69f9d9341038eba93a073b1fdaaa1b788221b00a69bce9e762cb32de"
 
 [[package]]
 name = "openssl-sys"
 version = "0.9.31"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a4d6a27d108b29befe1822d40e2e22f85518dac59acbf7f30fdc532f48fd0a77"
 dependencies = [
- "cc 1.0.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "pkg-config 0.3.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "vcpkg 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cc",
+ "libc",
+ "pkg-config",
+ "vcpkg",
 ]
 
 [[package]]
 name = "pdqselect"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4ec91767ecc0a0bbe558ce8c9da33c068066c57ecc8bb8477ef8c1ad3ef77c27"
 
 [[package]]
 name = "percent-encoding"
 version = "1.0.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "31010dd2e1ac33d5b46a5b413495239882813e0369f8ed8a5e266f173602f831"
 
 [[package]]
 name = "phf"
 version = "0.7.22"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7d37a244c75a9748e049225155f56dbcb98fe71b192fd25fd23cb914b5ad62f2"
 dependencies = [
- "phf_shared 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
+ "phf_shared",
 ]
 
 [[package]]
 name = "phf_codegen"
 version = "0.7.22"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4e4048fe7dd7a06b8127ecd6d3803149126e9b33c7558879846da3a63f734f2b"
 dependencies = [
- "phf_generator 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
- "phf_shared 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
+ "phf_generator",
+ "phf_shared",
 ]
 
 [[package]]
 name = "phf_generator"
 version = "0.7.22"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "05a079dd052e7b674d21cb31cbb6c05efd56a2cd2827db7692e2f1a507ebd998"
 dependencies = [
- "phf_shared 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "phf_shared",
+ "rand 0.4.2",
 ]
 
 [[package]]
 name = "phf_shared"
 version = "0.7.22"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c2261d544c2bb6aa3b10022b0be371b9c7c64f762ef28c6f5d4f1ef6d97b5930"
 dependencies = [
- "siphasher 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicase 1.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "siphasher",
+ "unicase 1.4.2",
 ]
 
 [[package]]
 name = "pkg-config"
 version = "0.3.11"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "110d5ee3593dbb73f56294327fe5668bcc997897097cbc76b51e7aed3f52452f"
 
 [[package]]
 name = "proc-macro2"
 version = "0.4.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1fa93823f53cfd0f5ac117b189aed6cfdfb2cfc0a9d82e956dd7927595ed7d46"
 dependencies = [
- "unicode-xid 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "unicode-xid 0.1.0",
 ]
 
 [[package]]
 name = "protobuf"
 version = "1.7.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0100b2cf4cd80bbe249f32146ddb767829da85fdda0ea79c570359620a8933e8"
 
 [[package]]
 name = "quantiles"
 version = "0.7.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c10fa813fb26fb6c321a6f3085b5ade4cb4730d08d0b9e70a3759136940957f2"
 dependencies = [
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
 ]
 
 [[package]]
 name = "quick-error"
 version = "1.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9274b940887ce9addde99c4eee6b5c44cc494b182b97e73dc8ffdcb3397fd3f0"
 
 [[package]]
 name = "quickcheck"
 version = "0.6.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c01babc5ffd48a2a83744b3024814bb46dfd4f2a4705ccb44b1b60e644fdcab7"
 dependencies = [
- "env_logger 0.5.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "env_logger",
+ "log 0.4.1",
+ "rand 0.4.2",
 ]
 
 [[package]]
 name = "quote"
 version = "0.3.15"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7a6e920b65c65f10b2ae65c831a81a073a89edd28c7cce89475bff467ab4167a"
 
 [[package]]
 name = "quote"
 version = "0.6.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e44651a0dc4cdd99f71c83b561e221f714912d11af1a4dff0631f923d53af035"
 dependencies = [
- "proc-macro2 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "proc-macro2",
 ]
 
 [[package]]
 name = "rand"
 version = "0.3.22"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "15a732abf9d20f0ad8eeb6f909bf6868722d9a06e1e50802b6a70351f40b4eb1"
 dependencies = [
- "fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "fuchsia-zircon",
+ "libc",
+ "rand 0.4.2",
 ]
 
 [[package]]
 name = "rand"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "eba5f8cb59cc50ed56be8880a5c7b496bfd9bd26394e176bc67884094145c2c5"
 dependencies = [
- "fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "fuchsia-zircon",
+ "libc",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "rand"
 version = "0.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7a89abf8d34faf9783692392dca7bcdc6e82fa84eca86ccb6301ec87f3497185"
 dependencies = [
- "cloudabi 0.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_core 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cloudabi",
+ "fuchsia-zircon",
+ "libc",
+ "rand_core 0.2.0",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "rand_core"
 version = "0.2.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1b7a5f27547c49e5ccf8a586db3f3782fd93cf849780b21853b9d981db203302"
 
 [[package]]
 name = "rand_core"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7a6fdeb83b075e8266dcc8762c22776f6877a63111121f5f8c7411e5be7eed4b"
 dependencies = [
- "rand_core 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rand_core 0.4.0",
 ]
 
 [[package]]
 name = "rand_core"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d0e7a549d590831370895ab7ba4ea0c1b6b011d106b5ff2da6eee112615e6dc0"
 
 [[package]]
 name = "rand_os"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f46fbd5550acf75b0c2730f5dd1873751daf9beb8f11b44027778fae50d7feca"
 dependencies = [
- "cloudabi 0.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_core 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "rdrand 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cloudabi",
+ "fuchsia-zircon",
+ "libc",
+ "rand_core 0.3.1",
+ "rdrand",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "rand_xoshiro"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03b418169fb9c46533f326efd6eed2576699c44ca92d3052a066214a8d828929"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand_core 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "rand_core 0.3.1",
 ]
 
 [[package]]
 name = "rawpointer"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ebac11a9d2e11f2af219b8b8d833b76b1ea0e054aa0e8d8e9e4cbde353bdf019"
 
 [[package]]
 name = "rayon"
 version = "1.0.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "373814f27745b2686b350dd261bfd24576a6fb0e2c5919b3a2b6005f820b0473"
 dependencies = [
- "crossbeam-deque 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "either 1.5.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "rayon-core 1.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "crossbeam-deque 0.2.0",
+ "either",
+ "rayon-core",
 ]
 
 [[package]]
 name = "rayon-core"
 version = "1.4.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b055d1e92aba6877574d8fe604a63c8b5df60f60e5982bf7ccbb1338ea527356"
 dependencies = [
- "crossbeam-deque 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "num_cpus 1.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "crossbeam-deque 0.2.0",
+ "lazy_static 1.2.0",
+ "libc",
+ "num_cpus 1.8.0",
 ]
 
 [[package]]
 name = "rdkafka"
 version = "0.17.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bbddabc62ecb65a9466fdceec212a8fc9b4cbd8475ef872a1af0c29886861b99"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.3.9 (registry+https://github.com/rust-lang/crates.io-index)",
- "rdkafka-sys 0.11.4-0 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "libc",
+ "log 0.3.9",
+ "rdkafka-sys",
+ "serde 1.0.63",
+ "serde_derive 1.0.63",
+ "serde_json 1.0.18",
 ]
 
 [[package]]
 name = "rdkafka-sys"
 version = "0.11.4-0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2928cdf466033859cb1e38a828bee828c101967ee309e364b41d8a40767979bb"
 dependencies = [
- "libz-sys 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "num_cpus 0.2.13 (registry+https://github.com/rust-lang/crates.io-index)",
- "pkg-config 0.3.11 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libz-sys",
+ "num_cpus 0.2.13",
+ "pkg-config",
 ]
 
 [[package]]
 name = "rdrand"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "678054eb77286b51581ba43620cc911abf02758c91f93f479767aed0f90458b2"
 dependencies = [
- "rand_core 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rand_core 0.3.1",
 ]
 
 [[package]]
 name = "redox_syscall"
 version = "0.1.38"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0a12d51a5b5fd700e6c757f15877685bfa04fd7eb60c108f01d045cafa0073c2"
 
 [[package]]
 name = "redox_termios"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7e891cfe48e9100a70a3b6eb652fef28920c117d366339687bd5576160db0f76"
 dependencies = [
- "redox_syscall 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
+ "redox_syscall",
 ]
 
 [[package]]
 name = "regex"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "75ecf88252dce580404a22444fc7d626c01815debba56a7f4f536772a5ff19d3"
 dependencies = [
- "aho-corasick 0.6.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex-syntax 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "thread_local 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "utf8-ranges 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "aho-corasick",
+ "memchr",
+ "regex-syntax",
+ "thread_local",
+ "utf8-ranges",
 ]
 
 [[package]]
 name = "regex-syntax"
 version = "0.6.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f1ac0f60d675cc6cf13a20ec076568254472551051ad5dd050364d70671bf6b"
 dependencies = [
- "ucd-util 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "ucd-util",
 ]
 
 [[package]]
 name = "relay"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1576e382688d7e9deecea24417e350d3062d97e32e45d70b1cde65994ff1489a"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
 ]
 
 [[package]]
 name = "remove_dir_all"
 version = "0.5.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3488ba1b9a2084d38645c4c08276a1752dcbf2c7130d74f1569681ad5d2799c5"
 dependencies = [
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "reqwest"
 version = "0.8.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "241faa9a8ca28a03cbbb9815a5d085f271d4c0168a19181f106aa93240c22ddb"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding_rs 0.7.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "hyper 0.11.27 (registry+https://github.com/rust-lang/crates.io-index)",
- "hyper-tls 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libflate 0.1.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mime_guess 2.0.0-alpha.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "native-tls 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_urlencoded 0.5.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-tls 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "uuid 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "encoding_rs",
+ "futures",
+ "hyper",
+ "hyper-tls",
+ "libflate",
+ "log 0.4.1",
+ "mime_guess",
+ "native-tls",
+ "serde 1.0.63",
+ "serde_json 1.0.18",
+ "serde_urlencoded",
+ "tokio-core",
+ "tokio-io",
+ "tokio-tls",
+ "url",
+ "uuid 0.5.1",
 ]
 
 [[package]]
 name = "rustc-demangle"
 version = "0.1.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "76d7ba1feafada44f2d38eed812bd2489a03c0f5abb975799251518b68848649"
 
 [[package]]
 name = "rustc-serialize"
 version = "0.3.24"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dcf128d1287d2ea9d80910b5f1120d0b8eede3fbf1abe91c40d39ea7d51e6fda"
 
 [[package]]
 name = "safemem"
 version = "0.2.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e27a8b19b835f7aea908818e871f5cc3a5a186550c30773be987e155e8163d8f"
 
 [[package]]
 name = "same-file"
 version = "1.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f20c4be53a8a1ff4c1f1b2bd14570d2f634628709752f0702ecdd2b3f9a5267"
 dependencies = [
- "winapi-util 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi-util",
 ]
 
 [[package]]
 name = "schannel"
 version = "0.1.12"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "85fd9df495640643ad2d00443b3d78aae69802ad488debab4f1dd52fc1806ade"
 dependencies = [
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "lazy_static 1.2.0",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "scoped-tls"
 version = "0.1.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "332ffa32bf586782a3efaeb58f127980944bbc8c4d6913a86107ac2a5ab24b28"
 
 [[package]]
 name = "scopeguard"
 version = "0.3.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "94258f53601af11e6a49f722422f6e3425c52b06245a5cf9bc09908b174f5e27"
 
 [[package]]
 name = "seahash"
 version = "3.0.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e048636bed25842fcdc36e5ad1ec6295b72d4b5b8a4b759b64915a4ce2b9d09d"
 
 [[package]]
 name = "security-framework"
 version = "0.1.16"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dfa44ee9c54ce5eecc9de7d5acbad112ee58755239381f687e564004ba4a2332"
 dependencies = [
- "core-foundation 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "core-foundation-sys 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "security-framework-sys 0.1.16 (registry+https://github.com/rust-lang/crates.io-index)",
+ "core-foundation",
+ "core-foundation-sys",
+ "libc",
+ "security-framework-sys",
 ]
 
 [[package]]
 name = "security-framework-sys"
 version = "0.1.16"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5421621e836278a0b139268f36eee0dc7e389b784dc3f79d8f11aabadf41bead"
 dependencies = [
- "core-foundation-sys 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
+ "core-foundation-sys",
+ "libc",
 ]
 
 [[package]]
 name = "serde"
 version = "0.9.15"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "34b623917345a631dc9608d5194cc206b3fe6c3554cd1c75b937e55e285254af"
 
 [[package]]
 name = "serde"
 version = "1.0.63"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6f4a07014dd9a6845448a9e62f6f27595847f09828caabf1b1d50bb6755fa4d2"
 
 [[package]]
 name = "serde-avro"
 version = "0.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f48903bf150937336f3ed7fcb17b0d2a997f168d81fbf15b8045c03373852a5c"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "crc 1.8.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "error-chain 0.9.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "flate2 0.2.20 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "linked-hash-map 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.3.9 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 0.9.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_derive 0.9.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 0.9.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "snap 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "crc",
+ "error-chain 0.9.0",
+ "flate2 0.2.20",
+ "lazy_static 0.2.11",
+ "linked-hash-map",
+ "log 0.3.9",
+ "serde 0.9.15",
+ "serde_derive 0.9.15",
+ "serde_json 0.9.10",
+ "snap",
 ]
 
 [[package]]
 name = "serde_codegen_internals"
 version = "0.14.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bc888bd283bd2420b16ad0d860e35ad8acb21941180a83a189bb2046f9d00400"
 dependencies = [
- "syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)",
+ "syn 0.11.11",
 ]
 
 [[package]]
 name = "serde_derive"
 version = "0.9.15"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "978fd866f4d4872084a81ccc35e275158351d3b9fe620074e7d7504b816b74ba"
 dependencies = [
- "quote 0.3.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_codegen_internals 0.14.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)",
+ "quote 0.3.15",
+ "serde_codegen_internals",
+ "syn 0.11.11",
 ]
 
 [[package]]
 name = "serde_derive"
 version = "1.0.63"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d68003d21ef20c5c48354638c2e5c0d4ce4a056fdbf973839e0e86054eae7794"
 dependencies = [
- "proc-macro2 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "quote 0.6.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "syn 0.14.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "proc-macro2",
+ "quote 0.6.3",
+ "syn 0.14.1",
 ]
 
 [[package]]
 name = "serde_derive_internals"
 version = "0.15.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "37aee4e0da52d801acfbc0cc219eb1eda7142112339726e427926a6f6ee65d3a"
 dependencies = [
- "syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)",
- "synom 0.11.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "syn 0.11.11",
+ "synom",
 ]
 
 [[package]]
 name = "serde_json"
 version = "0.9.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ad8bcf487be7d2e15d3d543f04312de991d631cfe1b43ea0ade69e6a8a5b16a1"
 dependencies = [
- "dtoa 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "itoa 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 0.9.15 (registry+https://github.com/rust-lang/crates.io-index)",
+ "dtoa",
+ "itoa 0.3.4",
+ "num-traits 0.1.43",
+ "serde 0.9.15",
 ]
 
 [[package]]
 name = "serde_json"
 version = "1.0.18"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ee382a792fabc5d720630aeafe1a4c69abe3d32aaaa5dbba6762fd8246d1bbe3"
 dependencies = [
- "dtoa 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "itoa 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "dtoa",
+ "itoa 0.4.1",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "serde_urlencoded"
 version = "0.5.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e703cef904312097cfceab9ce131ff6bbe09e8c964a0703345a5f49238757bc1"
 dependencies = [
- "dtoa 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "itoa 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "dtoa",
+ "itoa 0.4.1",
+ "serde 1.0.63",
+ "url",
 ]
 
 [[package]]
 name = "siphasher"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0df90a788073e8d0235a67e50441d47db7c8ad9debd91cbf43736a2a92d36537"
 
 [[package]]
 name = "slab"
 version = "0.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "17b4fcaed89ab08ef143da37bc52adbcc04d4a69014f4c1208d6b51f0c47bc23"
 
 [[package]]
 name = "slab"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fdeff4cd9ecff59ec7e3744cbca73dfe5ac35c2aedb2cfba8a1c715a18912e9d"
 
 [[package]]
 name = "smallvec"
 version = "0.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4c8cbcd6df1e117c2210e13ab5109635ad68a929fcbb8964dc965b76cb5ee013"
 
 [[package]]
 name = "smallvec"
 version = "0.3.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e143aeee11cc8ece23c8336394de5138e598b84f5720fb8e895e2c6096322d88"
 
 [[package]]
 name = "snap"
 version = "0.2.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "174451758f7045084ae92070f18e5d8e5c53a716f4172a9c6b17ce03e7b82573"
 dependencies = [
- "byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
+ "lazy_static 1.2.0",
 ]
 
 [[package]]
 name = "spade"
 version = "1.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c7acaf24b56259a7215446640e34558e7329f6a23107dfc5168a9e9236528610"
 dependencies = [
- "cgmath 0.16.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "clamp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "nalgebra 0.14.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "num 0.1.42 (registry+https://github.com/rust-lang/crates.io-index)",
- "pdqselect 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "smallvec 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cgmath",
+ "clamp",
+ "nalgebra",
+ "num",
+ "pdqselect",
+ "smallvec 0.3.4",
 ]
 
 [[package]]
 name = "strsim"
 version = "0.7.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bb4f380125926a99e52bc279241539c018323fab05ad6368b56f93d9369ff550"
 
 [[package]]
 name = "syn"
 version = "0.11.11"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d3b891b9015c88c576343b9b3e41c2c11a51c219ef067b264bd9c8aa9b441dad"
 dependencies = [
- "quote 0.3.15 (registry+https://github.com/rust-lang/crates.io-index)",
- "synom 0.11.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-xid 0.0.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "quote 0.3.15",
+ "synom",
+ "unicode-xid 0.0.4",
 ]
 
 [[package]]
 name = "syn"
 version = "0.14.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6dfd71b2be5a58ee30a6f8ea355ba8290d397131c00dfa55c3d34e6e13db5101"
 dependencies = [
- "proc-macro2 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "quote 0.6.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-xid 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "proc-macro2",
+ "quote 0.6.3",
+ "unicode-xid 0.1.0",
 ]
 
 [[package]]
 name = "synom"
 version = "0.11.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a393066ed9010ebaed60b9eafa373d4b1baac186dd7e008555b0f702b51945b6"
 dependencies = [
- "unicode-xid 0.0.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "unicode-xid 0.0.4",
 ]
 
 [[package]]
 name = "take"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b157868d8ac1f56b64604539990685fa7611d8fa9e5476cf0c02cf34d32917c5"
 
 [[package]]
 name = "tempdir"
 version = "0.3.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "15f2b5fb00ccdf689e0149d1b1b3c03fead81c2b37735d812fa8bddbbf41b6d8"
 dependencies = [
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "remove_dir_all 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rand 0.4.2",
+ "remove_dir_all",
 ]
 
 [[package]]
 name = "termcolor"
 version = "0.3.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "adc4587ead41bf016f11af03e55a624c06568b5a19db4e90fde573d805074f83"
 dependencies = [
- "wincolor 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
+ "wincolor",
 ]
 
 [[package]]
 name = "termion"
 version = "1.5.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "689a3bdfaab439fd92bc87df5c4c78417d3cbe537487274e9b0b2dce76e92096"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_syscall 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_termios 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "redox_syscall",
+ "redox_termios",
 ]
 
 [[package]]
 name = "textwrap"
 version = "0.10.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "307686869c93e71f94da64286f9a9524c0f308a9e1c87a583de8e9c9039ad3f6"
 dependencies = [
- "unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "unicode-width",
 ]
 
 [[package]]
 name = "thread_local"
 version = "0.3.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "279ef31c19ededf577bfd12dfae728040a21f635b06a24cd670ff510edd38963"
 dependencies = [
- "lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "unreachable 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "lazy_static 1.2.0",
+ "unreachable",
 ]
 
 [[package]]
 name = "time"
 version = "0.1.40"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d825be0eb33fda1a7e68012d51e9c7f451dc1a69391e7fdc197060bb8c56667b"
 dependencies = [
- "libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_syscall 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "redox_syscall",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "tiny_http"
 version = "0.6.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a442681f9f72e440be192700eeb2861e4174b9983f16f4877c93a134cb5e5f63"
 dependencies = [
- "ascii 0.8.7 (registry+https://github.com/rust-lang/crates.io-index)",
- "chrono 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "chunked_transfer 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "encoding 0.2.33 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "ascii",
+ "chrono",
+ "chunked_transfer",
+ "encoding",
+ "log 0.4.1",
+ "url",
 ]
 
 [[package]]
 name = "tinytemplate"
 version = "1.0.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7655088894274afb52b807bd3c87072daa1fedd155068b8705cabfd628956115"
 dependencies = [
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)",
+ "serde 1.0.63",
+ "serde_json 1.0.18",
 ]
 
 [[package]]
 name = "tokio"
 version = "0.1.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7d00555353b013e170ed8bc4e13f648a317d1fd12157dbcae13f7013f6cf29f5"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-fs 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-reactor 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-tcp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-threadpool 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-timer 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-udp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "mio",
+ "tokio-executor",
+ "tokio-fs",
+ "tokio-io",
+ "tokio-reactor",
+ "tokio-tcp",
+ "tokio-threadpool",
+ "tokio-timer",
+ "tokio-udp",
 ]
 
 [[package]]
 name = "tokio-core"
 version = "0.1.17"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "aeeffbbb94209023feaef3c196a41cbcdafa06b4a6f893f68779bb5e53796f71"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "scoped-tls 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-reactor 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-timer 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "futures",
+ "iovec",
+ "log 0.4.1",
+ "mio",
+ "scoped-tls",
+ "tokio",
+ "tokio-executor",
+ "tokio-io",
+ "tokio-reactor",
+ "tokio-timer",
 ]
 
 [[package]]
 name = "tokio-executor"
 version = "0.1.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8cac2a7883ff3567e9d66bb09100d09b33d90311feca0206c7ca034bc0c55113"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
 ]
 
 [[package]]
 name = "tokio-fs"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "76766830bbf9a2d5bfb50c95350d56a2e79e2c80f675967fff448bc615899708"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-threadpool 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "tokio-io",
+ "tokio-threadpool",
 ]
 
 [[package]]
 name = "tokio-io"
 version = "0.1.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6af9eb326f64b2d6b68438e1953341e00ab3cf54de7e35d92bfc73af8555313a"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "futures",
+ "log 0.4.1",
 ]
 
 [[package]]
 name = "tokio-proto"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8fbb47ae81353c63c487030659494b295f6cb6576242f907f203473b191b0389"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.3.9 (registry+https://github.com/rust-lang/crates.io-index)",
- "net2 0.2.32 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.3.22 (registry+https://github.com/rust-lang/crates.io-index)",
- "slab 0.3.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "smallvec 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "take 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-service 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "log 0.3.9",
+ "net2",
+ "rand 0.3.22",
+ "slab 0.3.0",
+ "smallvec 0.2.1",
+ "take",
+ "tokio-core",
+ "tokio-io",
+ "tokio-service",
 ]
 
 [[package]]
 name = "tokio-reactor"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b3cedc8e5af5131dc3423ffa4f877cce78ad25259a9a62de0613735a13ebc64b"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "slab 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "log 0.4.1",
+ "mio",
+ "slab 0.4.0",
+ "tokio-executor",
+ "tokio-io",
 ]
 
 [[package]]
 name = "tokio-service"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "24da22d077e0f15f55162bdbdc661228c1581892f52074fb242678d015b45162"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
 ]
 
 [[package]]
 name = "tokio-tcp"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ec9b094851aadd2caf83ba3ad8e8c4ce65a42104f7b94d9e6550023f0407853f"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-reactor 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "futures",
+ "iovec",
+ "mio",
+ "tokio-io",
+ "tokio-reactor",
 ]
 
 [[package]]
 name = "tokio-threadpool"
 version = "0.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5783254b10c7c84a56f62c74766ef7e5b83d1f13053218c7cab8d3f2c826fa0e"
 dependencies = [
- "crossbeam-deque 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "num_cpus 1.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "crossbeam-deque 0.3.1",
+ "futures",
+ "log 0.4.1",
+ "num_cpus 1.8.0",
+ "rand 0.4.2",
+ "tokio-executor",
 ]
 
 [[package]]
 name = "tokio-timer"
 version = "0.2.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "535fed0ccee189f3d48447587697ba3fd234b3dbbb091f0ec4613ddfec0a7c4c"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "tokio-executor",
 ]
 
 [[package]]
 name = "tokio-tls"
 version = "0.1.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "772f4b04e560117fe3b0a53e490c16ddc8ba6ec437015d91fa385564996ed913"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "native-tls 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "native-tls",
+ "tokio-core",
+ "tokio-io",
 ]
 
 [[package]]
 name = "tokio-udp"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "137bda266504893ac4774e0ec4c2108f7ccdbcb7ac8dced6305fe9e4e0b5041a"
 dependencies = [
- "bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "tokio-reactor 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bytes",
+ "futures",
+ "log 0.4.1",
+ "mio",
+ "tokio-io",
+ "tokio-reactor",
 ]
 
 [[package]]
 name = "toml"
 version = "0.4.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a0263c6c02c4db6c8f7681f9fd35e90de799ebd4cfdeab77a38f4ff6b3d8c0d9"
 dependencies = [
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "try-lock"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ee2aa4715743892880f70885373966c83d73ef1b0838a664ef0c76fffd35e7c2"
 
 [[package]]
 name = "typenum"
 version = "1.10.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "612d636f949607bdf9b123b4a6f6d966dedf3ff669f7f045890d3a4a73948169"
 
 [[package]]
 name = "ucd-util"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fd2be2d6639d0f8fe6cdda291ad456e23629558d466e2789d2c3e9892bda285d"
 
 [[package]]
 name = "unicase"
 version = "1.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7f4765f83163b74f957c797ad9253caf97f103fb064d3999aea9568d09fc8a33"
 dependencies = [
- "version_check 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "version_check",
 ]
 
 [[package]]
 name = "unicase"
 version = "2.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "284b6d3db520d67fbe88fd778c21510d1b0ba4a551e5d0fbb023d33405f6de8a"
 dependencies = [
- "version_check 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
+ "version_check",
 ]
 
 [[package]]
 name = "unicode-bidi"
 version = "0.3.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "49f2bd0c6468a8230e1db229cff8029217cf623c767ea5d60bfbd42729ea54d5"
 dependencies = [
- "matches 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
+ "matches",
 ]
 
 [[package]]
 name = "unicode-normalization"
 version = "0.1.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6a0180bc61fc5a987082bfa111f4cc95c4caff7f9799f3e46df09163a937aa25"
 
 [[package]]
 name = "unicode-width"
 version = "0.1.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "882386231c45df4700b275c7ff55b6f3698780a650026380e72dabe76fa46526"
 
 [[package]]
 name = "unicode-xid"
 version = "0.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8c1f860d7d29cf02cb2f3f359fd35991af3d30bac52c57d265a3c461074cb4dc"
 
 [[package]]
 name = "unicode-xid"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fc72304796d0818e357ead4e000d19c9c174ab23dc11093ac919054d20a6a7fc"
 
 [[package]]
 name = "unreachable"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "382810877fe448991dfc7f0dd6e3ae5d58088fd0ea5e35189655f84e6814fa56"
 dependencies = [
- "void 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "void",
 ]
 
 [[package]]
 name = "url"
 version = "1.7.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f808aadd8cfec6ef90e4a14eb46f24511824d1ac596b9682703c87056c8678b7"
 dependencies = [
- "idna 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "matches 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)",
- "percent-encoding 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "idna",
+ "matches",
+ "percent-encoding",
 ]
 
 [[package]]
 name = "utf8-ranges"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "662fab6525a98beff2921d7f61a39e7d59e0b425ebc7d0d9e66d316e55124122"
 
 [[package]]
 name = "uuid"
 version = "0.5.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bcc7e3b898aa6f6c08e5295b6c89258d1331e9ac578cc992fb818759951bdc22"
 dependencies = [
- "rand 0.3.22 (registry+https://github.com/rust-lang/crates.io-index)",
+ "rand 0.3.22",
 ]
 
 [[package]]
 name = "uuid"
 version = "0.6.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e1436e58182935dcd9ce0add9ea0b558e8a87befe01c1a301e6020aeb0876363"
 dependencies = [
- "cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)",
+ "cfg-if",
+ "rand 0.4.2",
+ "serde 1.0.63",
 ]
 
 [[package]]
 name = "vcpkg"
 version = "0.2.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7ed0f6789c8a85ca41bbc1c9d175422116a9869bd1cf31bb08e1493ecce60380"
 
 [[package]]
 name = "vec_map"
 version = "0.8.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "05c78687fb1a80548ae3250346c3db86a80a7cdd77bda190189f2d0a0987c81a"
 
 [[package]]
 name = "version_check"
 version = "0.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6b772017e347561807c1aa192438c5fd74242a670a6cffacc40f2defd1dc069d"
 
 [[package]]
 name = "void"
 version = "1.0.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
 
 [[package]]
 name = "walkdir"
 version = "2.2.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9d9d7ed3431229a144296213105a390676cc49c9b6a72bd19f3176c98e129fa1"
 dependencies = [
- "same-file 1.0.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-util 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "same-file",
+ "winapi 0.3.4",
+ "winapi-util",
 ]
 
 [[package]]
 name = "want"
 version = "0.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a05d9d966753fa4b5c8db73fcab5eed4549cfe0e1e4e66911e5564a0085c35d1"
 dependencies = [
- "futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)",
- "log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "try-lock 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "futures",
+ "log 0.4.1",
+ "try-lock",
 ]
 
 [[package]]
 name = "winapi"
 version = "0.2.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "167dc9d6949a9b857f3451275e911c3f44255842c1f7a76f33c55103a909087a"
 
 [[package]]
 name = "winapi"
 version = "0.3.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "04e3bd221fcbe8a271359c04f21a76db7d0c6028862d1bb5512d85e1e2eb5bb3"
 dependencies = [
- "winapi-i686-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-x86_64-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi-i686-pc-windows-gnu",
+ "winapi-x86_64-pc-windows-gnu",
 ]
 
 [[package]]
 name = "winapi-build"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2d315eee3b34aca4797b2da6b13ed88266e6d612562a0c46390af8299fc699bc"
 
 [[package]]
 name = "winapi-i686-pc-windows-gnu"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ac3b87c63620426dd9b991e5ce0329eff545bccbbb34f3be09ff6fb6ab51b7b6"
 
 [[package]]
 name = "winapi-util"
 version = "0.1.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7168bab6e1daee33b4557efd0e95d5ca70a03706d39fa5f3fe7a236f584b03c9"
 dependencies = [
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "winapi-x86_64-pc-windows-gnu"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
 
 [[package]]
 name = "wincolor"
 version = "0.1.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "eeb06499a3a4d44302791052df005d5232b927ed1a9658146d842165c4de7767"
 dependencies = [
- "winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi 0.3.4",
 ]
 
 [[package]]
 name = "ws2_32-sys"
 version = "0.2.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d59cefebd0c892fa2dd6de581e937301d8552cb44489cdff035c6187cb63fa5e"
 dependencies = [
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-build 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
-]
-
-[metadata]
-"checksum adler32 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)" = "6cbd0b9af8587c72beadc9f72d35b9fbb070982c9e6203e46e93f10df25f8f45"
-"checksum aho-corasick 0.6.4 (registry+https://github.com/rust-lang/crates.io-index)" = "d6531d44de723825aa81398a6415283229725a00fa30713812ab9323faa82fc4"
-"checksum alga 0.5.4 (registry+https://github.com/rust-lang/crates.io-index)" = "88c4144cd393075e782c633b4f9c5dea4811aed18ed59f518ae2ca2b553e3d09"
-"checksum ansi_term 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ee49baf6cb617b853aa8d93bf420db2383fab46d314482ca2803b40d5fde979b"
-"checksum approx 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "08abcc3b4e9339e33a3d0a5ed15d84a687350c05689d825e0f6655eef9e76a94"
-"checksum arrayvec 0.4.7 (registry+https://github.com/rust-lang/crates.io-index)" = "a1e964f9e24d588183fcb43503abda40d288c8657dfc27311516ce2f05675aef"
-"checksum ascii 0.8.7 (registry+https://github.com/rust-lang/crates.io-index)" = "97be891acc47ca214468e09425d02cef3af2c94d0d82081cd02061f996802f14"
-"checksum atty 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)" = "9a7d5b8723950951411ee34d271d99dddcc2035a16ab25310ea2c8cfd4369652"
-"checksum backtrace 0.3.8 (registry+https://github.com/rust-lang/crates.io-index)" = "dbdd17cd962b570302f5297aea8648d5923e22e555c2ed2d8b2e34eca646bf6d"
-"checksum backtrace-sys 0.1.23 (registry+https://github.com/rust-lang/crates.io-index)" = "bff67d0c06556c0b8e6b5f090f0eac52d950d9dfd1d35ba04e4ca3543eaf6a7e"
-"checksum base64 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)" = "9263aa6a38da271eec5c91a83ce1e800f093c8535788d403d626d8d5c3f8f007"
-"checksum bincode 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "bda13183df33055cbb84b847becce220d392df502ebe7a4a78d7021771ed94d0"
-"checksum bit-set 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "d9bf6104718e80d7b26a68fdbacff3481cfc05df670821affc7e9cbc1884400c"
-"checksum bit-vec 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)" = "02b4ff8b16e6076c3e14220b39fbc1fabb6737522281a388998046859400895f"
-"checksum bitflags 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)" = "4efd02e230a02e18f92fc2735f44597385ed02ad8f831e7c1c1156ee5e1ab3a5"
-"checksum bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)" = "d0c54bb8f454c567f21197eefcdbf5679d0bd99f2ddbe52e84c77061952e6789"
-"checksum build_const 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "39092a32794787acd8525ee150305ff051b0aa6cc2abaf193924f5ab05425f39"
-"checksum byteorder 1.2.3 (registry+https://github.com/rust-lang/crates.io-index)" = "74c0b906e9446b0a2e4f760cdb3fa4b2c48cdc6db8766a845c54b6ff063fd2e9"
-"checksum bytes 0.4.8 (registry+https://github.com/rust-lang/crates.io-index)" = "7dd32989a66957d3f0cba6588f15d4281a733f4e9ffc43fcd2385f57d3bf99ff"
-"checksum cast 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "926013f2860c46252efceabb19f4a6b308197505082c609025aa6706c011d427"
-"checksum cc 1.0.17 (registry+https://github.com/rust-lang/crates.io-index)" = "49ec142f5768efb5b7622aebc3fdbdbb8950a4b9ba996393cb76ef7466e8747d"
-"checksum cfg-if 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)" = "405216fd8fe65f718daa7102ea808a946b6ce40c742998fbfd3463645552de18"
-"checksum cgmath 0.16.1 (registry+https://github.com/rust-lang/crates.io-index)" = "64a4b57c8f4e3a2e9ac07e0f6abc9c24b6fc9e1b54c3478cfb598f3d0023e51c"
-"checksum chan 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)" = "9af7c487bb99c929ba2715b1a3a7bf45f5062bf5b6eae5d32b292a96c5865172"
-"checksum chan-signal 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "f1f1e11f6e1c14c9e805a87c622cb8fcb636283b3119a2150af390cc6702d7fe"
-"checksum chrono 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "1cce36c92cb605414e9b824f866f5babe0a0368e39ea07393b9b63cf3844c0e6"
-"checksum chunked_transfer 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "498d20a7aaf62625b9bf26e637cf7736417cde1d0c99f1d04d1170229a85cf87"
-"checksum clamp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "b0113a8ae379a061c89a71d57a809439f5ce550b6a76063ab5ba2b1cb180971f"
-"checksum clap 2.32.0 (registry+https://github.com/rust-lang/crates.io-index)" = "b957d88f4b6a63b9d70d5f454ac8011819c6efa7727858f458ab71c756ce2d3e"
-"checksum cloudabi 0.0.3 (registry+https://github.com/rust-lang/crates.io-index)" = "ddfc5b9aa5d4507acaf872de71051dfd0e309860e88966e1051e462a077aac4f"
-"checksum coco 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)" = "04d5eef9c9354cbb35d5069c39054c657469d2aa7789d4c71d0a6b686dc48bea"
-"checksum core-foundation 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)" = "25bfd746d203017f7d5cbd31ee5d8e17f94b6521c7af77ece6c9e4b2d4b16c67"
-"checksum core-foundation-sys 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)" = "065a5d7ffdcbc8fa145d6f0746f3555025b9097a9e9cda59f7467abae670c78d"
-"checksum crc 1.8.1 (registry+https://github.com/rust-lang/crates.io-index)" = "d663548de7f5cca343f1e0a48d14dcfb0e9eb4e079ec58883b7251539fa10aeb"
-"checksum criterion 0.2.9 (registry+https://github.com/rust-lang/crates.io-index)" = "4f80c6ccd9d5cdeb74d67d2d5b9ee84e0a2b5eb0331bc2209a9796652dd7fddf"
-"checksum criterion-plot 0.3.0 (registry+https://github.com/rust-lang/crates.io-index)" = "4107e4a5abb94267e0149922b8ff49dc70a87cc202820fdbfc0d3e1edbdc4b16"
-"checksum crossbeam-deque 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)" = "f739f8c5363aca78cfb059edf753d8f0d36908c348f3d8d1503f03d8b75d9cf3"
-"checksum crossbeam-deque 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "fe8153ef04a7594ded05b427ffad46ddeaf22e63fd48d42b3e1e3bb4db07cae7"
-"checksum crossbeam-epoch 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "927121f5407de9956180ff5e936fe3cf4324279280001cd56b669d28ee7e9150"
-"checksum crossbeam-epoch 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)" = "9b4e2817eb773f770dcb294127c011e22771899c21d18fce7dd739c0b9832e81"
-"checksum crossbeam-utils 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "2760899e32a1d58d5abb31129f8fae5de75220bc2176e77ff7c627ae45c918d9"
-"checksum crossbeam-utils 0.3.2 (registry+https://github.com/rust-lang/crates.io-index)" = "d636a8b3bcc1b409d7ffd3facef8f21dcb4009626adbd0c5e6c4305c07253c7b"
-"checksum csv 1.0.5 (registry+https://github.com/rust-lang/crates.io-index)" = "9fd1c44c58078cfbeaf11fbb3eac9ae5534c23004ed770cc4bfb48e658ae4f04"
-"checksum csv-core 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)" = "fa5cdef62f37e6ffe7d1f07a381bc0db32b7a3ff1cac0de56cb0d81e71f53d65"
-"checksum dtoa 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "09c3753c3db574d215cba4ea76018483895d7bff25a31b49ba45db21c48e50ab"
-"checksum either 1.5.0 (registry+https://github.com/rust-lang/crates.io-index)" = "3be565ca5c557d7f59e7cfcf1844f9e3033650c929c6566f511e8005f205c1d0"
-"checksum elastic 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "03978a34da45e1e7b13a553bd8eeb2f3b58f28e12dbca312c567b142c4b80ef1"
-"checksum elastic_requests 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "24ce3dae2241d476179de5bb26562554f29dca969a7def655e45c085cf95b8f4"
-"checksum elastic_reqwest 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "56e3a863e25b472e527f1cba6f17a5182fa5a3db73ff93d8ada01495554ddca4"
-"checksum elastic_responses 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "4c5783170dca235427b4b9899dcb2e94242c0a578f43ed205d70ee9bd82331f0"
-"checksum elastic_types 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "316c1399d84b6118ee629c1dc7db4ac1a14ed49b2734f9781fae39e818a0b7ec"
-"checksum elastic_types_derive 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "dc51f1864589feae06568a793ae37b8f95ca998d5a08549fa972b81ae4aa1cfa"
-"checksum elastic_types_derive_internals 0.20.10 (registry+https://github.com/rust-lang/crates.io-index)" = "3f30a4e93394684988b99e33d72c89f23a728a64e4c4ace621157a5b0ec6dad7"
-"checksum encoding 0.2.33 (registry+https://github.com/rust-lang/crates.io-index)" = "6b0d943856b990d12d3b55b359144ff341533e516d94098b1d3fc1ac666d36ec"
-"checksum encoding-index-japanese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)" = "04e8b2ff42e9a05335dbf8b5c6f7567e5591d0d916ccef4e0b1710d32a0d0c91"
-"checksum encoding-index-korean 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)" = "4dc33fb8e6bcba213fe2f14275f0963fd16f0a02c878e3095ecfdf5bee529d81"
-"checksum encoding-index-simpchinese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)" = "d87a7194909b9118fc707194baa434a4e3b0fb6a5a757c73c3adb07aa25031f7"
-"checksum encoding-index-singlebyte 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)" = "3351d5acffb224af9ca265f435b859c7c01537c0849754d3db3fdf2bfe2ae84a"
-"checksum encoding-index-tradchinese 1.20141219.5 (registry+https://github.com/rust-lang/crates.io-index)" = "fd0e20d5688ce3cab59eb3ef3a2083a5c77bf496cb798dc6fcdb75f323890c18"
-"checksum encoding_index_tests 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)" = "a246d82be1c9d791c5dfde9a2bd045fc3cbba3fa2b11ad558f27d01712f00569"
-"checksum encoding_rs 0.7.2 (registry+https://github.com/rust-lang/crates.io-index)" = "98fd0f24d1fb71a4a6b9330c8ca04cbd4e7cc5d846b54ca74ff376bc7c9f798d"
-"checksum env_logger 0.5.10 (registry+https://github.com/rust-lang/crates.io-index)" = "0e6e40ebb0e66918a37b38c7acab4e10d299e0463fe2af5d29b9cc86710cfd2a"
-"checksum error-chain 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ff511d5dc435d703f4971bc399647c9bc38e20cb41452e3b9feb4765419ed3f3"
-"checksum error-chain 0.9.0 (registry+https://github.com/rust-lang/crates.io-index)" = "e92ecf0a508c8e074c0e6fa8fe0fa38414848ad4dfc4db6f74c5e9753330b248"
-"checksum fern 0.5.5 (registry+https://github.com/rust-lang/crates.io-index)" = "de237898aa785d93b869e965132f62a525b90cce5c0bf2a395f03e62e085bc5c"
-"checksum flate2 0.2.20 (registry+https://github.com/rust-lang/crates.io-index)" = "e6234dd4468ae5d1e2dbb06fe2b058696fdc50a339c68a393aefbf00bc81e423"
-"checksum flate2 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)" = "9fac2277e84e5e858483756647a9d0aa8d9a2b7cba517fd84325a0aaa69a0909"
-"checksum foreign-types 0.3.2 (registry+https://github.com/rust-lang/crates.io-index)" = "f6f339eb8adc052cd2ca78910fda869aefa38d22d5cb648e6485e4d3fc06f3b1"
-"checksum foreign-types-shared 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "00b0228411908ca8685dba7fc2cdd70ec9990a6e753e89b6ac91a84c40fbaf4b"
-"checksum fuchsia-zircon 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)" = "2e9763c69ebaae630ba35f74888db465e49e259ba1bc0eda7d06f4a067615d82"
-"checksum fuchsia-zircon-sys 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)" = "3dcaa9ae7725d12cdb85b3ad99a434db70b468c09ded17e012d86b5c1010f7a7"
-"checksum futures 0.1.21 (registry+https://github.com/rust-lang/crates.io-index)" = "1a70b146671de62ec8c8ed572219ca5d594d9b06c0b364d5e67b722fc559b48c"
-"checksum futures-cpupool 0.1.8 (registry+https://github.com/rust-lang/crates.io-index)" = "ab90cde24b3319636588d0c35fe03b1333857621051837ed769faefb4c2162e4"
-"checksum gcc 0.3.54 (registry+https://github.com/rust-lang/crates.io-index)" = "5e33ec290da0d127825013597dbdfc28bee4964690c7ce1166cbc2a7bd08b1bb"
-"checksum generic-array 0.8.3 (registry+https://github.com/rust-lang/crates.io-index)" = "fceb69994e330afed50c93524be68c42fa898c2d9fd4ee8da03bd7363acd26f2"
-"checksum geo 0.4.13 (registry+https://github.com/rust-lang/crates.io-index)" = "03421e9865903f0015426358027cafe76d4a3858031adaa1a1f1be5e62cdbb82"
-"checksum geo 0.6.3 (registry+https://github.com/rust-lang/crates.io-index)" = "0f3f587a8e7ce8b1633c44a4a24bbeb6dad09f1db740ec335a072e7a1eeb6de8"
-"checksum geohash 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "d7afe5835562c47d5b81395f412ffe960020392a4172ad8477e7ff6d184e54e6"
-"checksum geojson 0.9.1 (registry+https://github.com/rust-lang/crates.io-index)" = "b3484ce9e9560be7e5dffe685dfe2cf2dbf785fc3dac2f193fb42c56a797c3d1"
-"checksum glob 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)" = "8be18de09a56b60ed0edf84bc9df007e30040691af7acd1c41874faac5895bfb"
-"checksum hopper 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "da1c39fbe55e44bb2afd45d53394cdf2fcc30c2e4f3a2fa14fff6f6f9c2493a5"
-"checksum httparse 1.2.4 (registry+https://github.com/rust-lang/crates.io-index)" = "c2f407128745b78abc95c0ffbe4e5d37427fdc0d45470710cfef8c44522a2e37"
-"checksum humantime 1.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "0484fda3e7007f2a4a0d9c3a703ca38c71c54c55602ce4660c419fd32e188c9e"
-"checksum hyper 0.11.27 (registry+https://github.com/rust-lang/crates.io-index)" = "34a590ca09d341e94cddf8e5af0bbccde205d5fbc2fa3c09dd67c7f85cea59d7"
-"checksum hyper-tls 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)" = "a5aa51f6ae9842239b0fac14af5f22123b8432b4cc774a44ff059fcba0f675ca"
-"checksum idna 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)" = "014b298351066f1512874135335d62a789ffe78a9974f94b43ed5621951eaf7d"
-"checksum iovec 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)" = "dbe6e417e7d0975db6512b90796e8ce223145ac4e33c377e4a42882a0e88bb08"
-"checksum itertools 0.8.0 (registry+https://github.com/rust-lang/crates.io-index)" = "5b8467d9c1cebe26feb08c640139247fac215782d35371ade9a2136ed6085358"
-"checksum itoa 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)" = "8324a32baf01e2ae060e9de58ed0bc2320c9a2833491ee36cd3b4c414de4db8c"
-"checksum itoa 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)" = "c069bbec61e1ca5a596166e55dfe4773ff745c3d16b700013bcaff9a6df2c682"
-"checksum kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "7507624b29483431c0ba2d82aece8ca6cdba9382bff4ddd0f7490560c056098d"
-"checksum language-tags 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "a91d884b6667cd606bb5a69aa0c99ba811a115fc68915e7056ec08a46e93199a"
-"checksum lazy_static 0.2.11 (registry+https://github.com/rust-lang/crates.io-index)" = "76f033c7ad61445c5b347c7382dd1237847eb1bce590fe50365dcb33d546be73"
-"checksum lazy_static 1.2.0 (registry+https://github.com/rust-lang/crates.io-index)" = "a374c89b9db55895453a74c1e38861d9deec0b01b405a82516e9d5de4820dea1"
-"checksum lazycell 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)" = "a6f08839bc70ef4a3fe1d566d5350f519c5912ea86be0df1740a7d247c7fc0ef"
-"checksum libc 0.2.41 (registry+https://github.com/rust-lang/crates.io-index)" = "ac8ebf8343a981e2fa97042b14768f02ed3e1d602eac06cae6166df3c8ced206"
-"checksum libflate 0.1.14 (registry+https://github.com/rust-lang/crates.io-index)" = "1a429b86418868c7ea91ee50e9170683f47fd9d94f5375438ec86ec3adb74e8e"
-"checksum libz-sys 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)" = "87f737ad6cc6fd6eefe3d9dc5412f1573865bded441300904d2f42269e140f16"
-"checksum linked-hash-map 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "7860ec297f7008ff7a1e3382d7f7e1dcd69efc94751a2284bafc3d013c2aa939"
-"checksum log 0.3.9 (registry+https://github.com/rust-lang/crates.io-index)" = "e19e8d5c34a3e0e2223db8e060f9e8264aeeb5c5fc64a4ee9965c062211c024b"
-"checksum log 0.4.1 (registry+https://github.com/rust-lang/crates.io-index)" = "89f010e843f2b1a31dbd316b3b8d443758bc634bed37aabade59c686d644e0a2"
-"checksum matches 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)" = "100aabe6b8ff4e4a7e32c1c13523379802df0772b82466207ac25b013f193376"
-"checksum matrixmultiply 0.1.14 (registry+https://github.com/rust-lang/crates.io-index)" = "cac1a66eab356036af85ea093101a14223dc6e3f4c02a59b7d572e5b93270bf7"
-"checksum memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)" = "796fba70e76612589ed2ce7f45282f5af869e0fdd7cc6199fa1aa1f1d591ba9d"
-"checksum memoffset 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "0f9dc261e2b62d7a622bf416ea3c5245cdd5d9a7fcc428c0d06804dfce1775b3"
-"checksum mime 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)" = "0b28683d0b09bbc20be1c9b3f6f24854efb1356ffcffee08ea3f6e65596e85fa"
-"checksum mime_guess 2.0.0-alpha.4 (registry+https://github.com/rust-lang/crates.io-index)" = "130ea3c9c1b65dba905ab5a4d9ac59234a9585c24d135f264e187fe7336febbd"
-"checksum miniz-sys 0.1.10 (registry+https://github.com/rust-lang/crates.io-index)" = "609ce024854aeb19a0ef7567d348aaa5a746b32fb72e336df7fcc16869d7e2b4"
-"checksum mio 0.6.14 (registry+https://github.com/rust-lang/crates.io-index)" = "6d771e3ef92d58a8da8df7d6976bfca9371ed1de6619d9d5a5ce5b1f29b85bfe"
-"checksum miow 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "8c1f2f3b1cf331de6896aabf6e9d55dca90356cc9960cca7eaaf408a355ae919"
-"checksum mond 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "55ba3d33d9d3328a600682e8685e1fdc3d43cd93f4d287105d7f9105b05036e1"
-"checksum nalgebra 0.14.4 (registry+https://github.com/rust-lang/crates.io-index)" = "3f73409a1a0876d9d7be16a7fb8fd7e0658df54098210c93a17d2d5e8ca7afe4"
-"checksum native-tls 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)" = "f74dbadc8b43df7864539cedb7bc91345e532fdd913cfdc23ad94f4d2d40fbc0"
-"checksum net2 0.2.32 (registry+https://github.com/rust-lang/crates.io-index)" = "9044faf1413a1057267be51b5afba8eb1090bd2231c693664aa1db716fe1eae0"
-"checksum nodrop 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)" = "9a2228dca57108069a5262f2ed8bd2e82496d2e074a06d1ccc7ce1687b6ae0a2"
-"checksum nom 2.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "cf51a729ecf40266a2368ad335a5fdde43471f545a967109cd62146ecf8b66ff"
-"checksum num 0.1.42 (registry+https://github.com/rust-lang/crates.io-index)" = "4703ad64153382334aa8db57c637364c322d3372e097840c72000dabdcf6156e"
-"checksum num-bigint 0.1.44 (registry+https://github.com/rust-lang/crates.io-index)" = "e63899ad0da84ce718c14936262a41cee2c79c981fc0a0e7c7beb47d5a07e8c1"
-"checksum num-complex 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)" = "b288631d7878aaf59442cffd36910ea604ecd7745c36054328595114001c9656"
-"checksum num-integer 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)" = "6ac0ea58d64a89d9d6b7688031b3be9358d6c919badcf7fbb0527ccfd891ee45"
-"checksum num-iter 0.1.37 (registry+https://github.com/rust-lang/crates.io-index)" = "af3fdbbc3291a5464dc57b03860ec37ca6bf915ed6ee385e7c6c052c422b2124"
-"checksum num-rational 0.1.42 (registry+https://github.com/rust-lang/crates.io-index)" = "ee314c74bd753fc86b4780aa9475da469155f3848473a261d2d18e35245a784e"
-"checksum num-traits 0.1.43 (registry+https://github.com/rust-lang/crates.io-index)" = "92e5113e9fd4cc14ded8e499429f396a20f98c772a47cc8622a736e1ec843c31"
-"checksum num-traits 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)" = "775393e285254d2f5004596d69bb8bc1149754570dcc08cf30cabeba67955e28"
-"checksum num_cpus 0.2.13 (registry+https://github.com/rust-lang/crates.io-index)" = "cee7e88156f3f9e19bdd598f8d6c9db7bf4078f99f8381f43a55b09648d1a6e3"
-"checksum num_cpus 1.8.0 (registry+https://github.com/rust-lang/crates.io-index)" = "c51a3322e4bca9d212ad9a158a02abc6934d005490c054a2778df73a70aa0a30"
-"checksum openssl 0.9.24 (registry+https://github.com/rust-lang/crates.io-index)" = "a3605c298474a3aa69de92d21139fb5e2a81688d308262359d85cdd0d12a7985"
-"checksum openssl-probe 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)" = "77af24da69f9d9341038eba93a073b1fdaaa1b788221b00a69bce9e762cb32de"
-"checksum openssl-sys 0.9.31 (registry+https://github.com/rust-lang/crates.io-index)" = "a4d6a27d108b29befe1822d40e2e22f85518dac59acbf7f30fdc532f48fd0a77"
-"checksum pdqselect 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "4ec91767ecc0a0bbe558ce8c9da33c068066c57ecc8bb8477ef8c1ad3ef77c27"
-"checksum percent-encoding 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)" = "31010dd2e1ac33d5b46a5b413495239882813e0369f8ed8a5e266f173602f831"
-"checksum phf 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)" = "7d37a244c75a9748e049225155f56dbcb98fe71b192fd25fd23cb914b5ad62f2"
-"checksum phf_codegen 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)" = "4e4048fe7dd7a06b8127ecd6d3803149126e9b33c7558879846da3a63f734f2b"
-"checksum phf_generator 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)" = "05a079dd052e7b674d21cb31cbb6c05efd56a2cd2827db7692e2f1a507ebd998"
-"checksum phf_shared 0.7.22 (registry+https://github.com/rust-lang/crates.io-index)" = "c2261d544c2bb6aa3b10022b0be371b9c7c64f762ef28c6f5d4f1ef6d97b5930"
-"checksum pkg-config 0.3.11 (registry+https://github.com/rust-lang/crates.io-index)" = "110d5ee3593dbb73f56294327fe5668bcc997897097cbc76b51e7aed3f52452f"
-"checksum proc-macro2 0.4.4 (registry+https://github.com/rust-lang/crates.io-index)" = "1fa93823f53cfd0f5ac117b189aed6cfdfb2cfc0a9d82e956dd7927595ed7d46"
-"checksum protobuf 1.7.3 (registry+https://github.com/rust-lang/crates.io-index)" = "0100b2cf4cd80bbe249f32146ddb767829da85fdda0ea79c570359620a8933e8"
-"checksum quantiles 0.7.1 (registry+https://github.com/rust-lang/crates.io-index)" = "c10fa813fb26fb6c321a6f3085b5ade4cb4730d08d0b9e70a3759136940957f2"
-"checksum quick-error 1.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "9274b940887ce9addde99c4eee6b5c44cc494b182b97e73dc8ffdcb3397fd3f0"
-"checksum quickcheck 0.6.2 (registry+https://github.com/rust-lang/crates.io-index)" = "c01babc5ffd48a2a83744b3024814bb46dfd4f2a4705ccb44b1b60e644fdcab7"
-"checksum quote 0.3.15 (registry+https://github.com/rust-lang/crates.io-index)" = "7a6e920b65c65f10b2ae65c831a81a073a89edd28c7cce89475bff467ab4167a"
-"checksum quote 0.6.3 (registry+https://github.com/rust-lang/crates.io-index)" = "e44651a0dc4cdd99f71c83b561e221f714912d11af1a4dff0631f923d53af035"
-"checksum rand 0.3.22 (registry+https://github.com/rust-lang/crates.io-index)" = "15a732abf9d20f0ad8eeb6f909bf6868722d9a06e1e50802b6a70351f40b4eb1"
-"checksum rand 0.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "eba5f8cb59cc50ed56be8880a5c7b496bfd9bd26394e176bc67884094145c2c5"
-"checksum rand 0.5.0 (registry+https://github.com/rust-lang/crates.io-index)" = "7a89abf8d34faf9783692392dca7bcdc6e82fa84eca86ccb6301ec87f3497185"
-"checksum rand_core 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)" = "1b7a5f27547c49e5ccf8a586db3f3782fd93cf849780b21853b9d981db203302"
-"checksum rand_core 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "7a6fdeb83b075e8266dcc8762c22776f6877a63111121f5f8c7411e5be7eed4b"
-"checksum rand_core 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "d0e7a549d590831370895ab7ba4ea0c1b6b011d106b5ff2da6eee112615e6dc0"
-"checksum rand_os 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "f46fbd5550acf75b0c2730f5dd1873751daf9beb8f11b44027778fae50d7feca"
-"checksum rand_xoshiro 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "03b418169fb9c46533f326efd6eed2576699c44ca92d3052a066214a8d828929"
-"checksum rawpointer 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ebac11a9d2e11f2af219b8b8d833b76b1ea0e054aa0e8d8e9e4cbde353bdf019"
-"checksum rayon 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)" = "373814f27745b2686b350dd261bfd24576a6fb0e2c5919b3a2b6005f820b0473"
-"checksum rayon-core 1.4.1 (registry+https://github.com/rust-lang/crates.io-index)" = "b055d1e92aba6877574d8fe604a63c8b5df60f60e5982bf7ccbb1338ea527356"
-"checksum rdkafka 0.17.0 (registry+https://github.com/rust-lang/crates.io-index)" = "bbddabc62ecb65a9466fdceec212a8fc9b4cbd8475ef872a1af0c29886861b99"
-"checksum rdkafka-sys 0.11.4-0 (registry+https://github.com/rust-lang/crates.io-index)" = "2928cdf466033859cb1e38a828bee828c101967ee309e364b41d8a40767979bb"
-"checksum rdrand 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "678054eb77286b51581ba43620cc911abf02758c91f93f479767aed0f90458b2"
-"checksum redox_syscall 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)" = "0a12d51a5b5fd700e6c757f15877685bfa04fd7eb60c108f01d045cafa0073c2"
-"checksum redox_termios 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "7e891cfe48e9100a70a3b6eb652fef28920c117d366339687bd5576160db0f76"
-"checksum regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "75ecf88252dce580404a22444fc7d626c01815debba56a7f4f536772a5ff19d3"
-"checksum regex-syntax 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)" = "8f1ac0f60d675cc6cf13a20ec076568254472551051ad5dd050364d70671bf6b"
-"checksum relay 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "1576e382688d7e9deecea24417e350d3062d97e32e45d70b1cde65994ff1489a"
-"checksum remove_dir_all 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)" = "3488ba1b9a2084d38645c4c08276a1752dcbf2c7130d74f1569681ad5d2799c5"
-"checksum reqwest 0.8.5 (registry+https://github.com/rust-lang/crates.io-index)" = "241faa9a8ca28a03cbbb9815a5d085f271d4c0168a19181f106aa93240c22ddb"
-"checksum rustc-demangle 0.1.8 (registry+https://github.com/rust-lang/crates.io-index)" = "76d7ba1feafada44f2d38eed812bd2489a03c0f5abb975799251518b68848649"
-"checksum rustc-serialize 0.3.24 (registry+https://github.com/rust-lang/crates.io-index)" = "dcf128d1287d2ea9d80910b5f1120d0b8eede3fbf1abe91c40d39ea7d51e6fda"
-"checksum safemem 0.2.0 (registry+https://github.com/rust-lang/crates.io-index)" = "e27a8b19b835f7aea908818e871f5cc3a5a186550c30773be987e155e8163d8f"
-"checksum same-file 1.0.4 (registry+https://github.com/rust-lang/crates.io-index)" = "8f20c4be53a8a1ff4c1f1b2bd14570d2f634628709752f0702ecdd2b3f9a5267"
-"checksum schannel 0.1.12 (registry+https://github.com/rust-lang/crates.io-index)" = "85fd9df495640643ad2d00443b3d78aae69802ad488debab4f1dd52fc1806ade"
-"checksum scoped-tls 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)" = "332ffa32bf586782a3efaeb58f127980944bbc8c4d6913a86107ac2a5ab24b28"
-"checksum scopeguard 0.3.3 (registry+https://github.com/rust-lang/crates.io-index)" = "94258f53601af11e6a49f722422f6e3425c52b06245a5cf9bc09908b174f5e27"
-"checksum seahash 3.0.5 (registry+https://github.com/rust-lang/crates.io-index)" = "e048636bed25842fcdc36e5ad1ec6295b72d4b5b8a4b759b64915a4ce2b9d09d"
-"checksum security-framework 0.1.16 (registry+https://github.com/rust-lang/crates.io-index)" = "dfa44ee9c54ce5eecc9de7d5acbad112ee58755239381f687e564004ba4a2332"
-"checksum security-framework-sys 0.1.16 (registry+https://github.com/rust-lang/crates.io-index)" = "5421621e836278a0b139268f36eee0dc7e389b784dc3f79d8f11aabadf41bead"
-"checksum serde 0.9.15 (registry+https://github.com/rust-lang/crates.io-index)" = "34b623917345a631dc9608d5194cc206b3fe6c3554cd1c75b937e55e285254af"
-"checksum serde 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)" = "6f4a07014dd9a6845448a9e62f6f27595847f09828caabf1b1d50bb6755fa4d2"
-"checksum serde-avro 0.5.0 (registry+https://github.com/rust-lang/crates.io-index)" = "f48903bf150937336f3ed7fcb17b0d2a997f168d81fbf15b8045c03373852a5c"
-"checksum serde_codegen_internals 0.14.2 (registry+https://github.com/rust-lang/crates.io-index)" = "bc888bd283bd2420b16ad0d860e35ad8acb21941180a83a189bb2046f9d00400"
-"checksum serde_derive 0.9.15 (registry+https://github.com/rust-lang/crates.io-index)" = "978fd866f4d4872084a81ccc35e275158351d3b9fe620074e7d7504b816b74ba"
-"checksum serde_derive 1.0.63 (registry+https://github.com/rust-lang/crates.io-index)" = "d68003d21ef20c5c48354638c2e5c0d4ce4a056fdbf973839e0e86054eae7794"
-"checksum serde_derive_internals 0.15.1 (registry+https://github.com/rust-lang/crates.io-index)" = "37aee4e0da52d801acfbc0cc219eb1eda7142112339726e427926a6f6ee65d3a"
-"checksum serde_json 0.9.10 (registry+https://github.com/rust-lang/crates.io-index)" = "ad8bcf487be7d2e15d3d543f04312de991d631cfe1b43ea0ade69e6a8a5b16a1"
-"checksum serde_json 1.0.18 (registry+https://github.com/rust-lang/crates.io-index)" = "ee382a792fabc5d720630aeafe1a4c69abe3d32aaaa5dbba6762fd8246d1bbe3"
-"checksum serde_urlencoded 0.5.2 (registry+https://github.com/rust-lang/crates.io-index)" = "e703cef904312097cfceab9ce131ff6bbe09e8c964a0703345a5f49238757bc1"
-"checksum siphasher 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "0df90a788073e8d0235a67e50441d47db7c8ad9debd91cbf43736a2a92d36537"
-"checksum slab 0.3.0 (registry+https://github.com/rust-lang/crates.io-index)" = "17b4fcaed89ab08ef143da37bc52adbcc04d4a69014f4c1208d6b51f0c47bc23"
-"checksum slab 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "fdeff4cd9ecff59ec7e3744cbca73dfe5ac35c2aedb2cfba8a1c715a18912e9d"
-"checksum smallvec 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "4c8cbcd6df1e117c2210e13ab5109635ad68a929fcbb8964dc965b76cb5ee013"
-"checksum smallvec 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)" = "e143aeee11cc8ece23c8336394de5138e598b84f5720fb8e895e2c6096322d88"
-"checksum snap 0.2.4 (registry+https://github.com/rust-lang/crates.io-index)" = "174451758f7045084ae92070f18e5d8e5c53a716f4172a9c6b17ce03e7b82573"
-"checksum spade 1.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "c7acaf24b56259a7215446640e34558e7329f6a23107dfc5168a9e9236528610"
-"checksum strsim 0.7.0 (registry+https://github.com/rust-lang/crates.io-index)" = "bb4f380125926a99e52bc279241539c018323fab05ad6368b56f93d9369ff550"
-"checksum syn 0.11.11 (registry+https://github.com/rust-lang/crates.io-index)" = "d3b891b9015c88c576343b9b3e41c2c11a51c219ef067b264bd9c8aa9b441dad"
-"checksum syn 0.14.1 (registry+https://github.com/rust-lang/crates.io-index)" = "6dfd71b2be5a58ee30a6f8ea355ba8290d397131c00dfa55c3d34e6e13db5101"
-"checksum synom 0.11.3 (registry+https://github.com/rust-lang/crates.io-index)" = "a393066ed9010ebaed60b9eafa373d4b1baac186dd7e008555b0f702b51945b6"
-"checksum take 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "b157868d8ac1f56b64604539990685fa7611d8fa9e5476cf0c02cf34d32917c5"
-"checksum tempdir 0.3.7 (registry+https://github.com/rust-lang/crates.io-index)" = "15f2b5fb00ccdf689e0149d1b1b3c03fead81c2b37735d812fa8bddbbf41b6d8"
-"checksum termcolor 0.3.6 (registry+https://github.com/rust-lang/crates.io-index)" = "adc4587ead41bf016f11af03e55a624c06568b5a19db4e90fde573d805074f83"
-"checksum termion 1.5.1 (registry+https://github.com/rust-lang/crates.io-index)" = "689a3bdfaab439fd92bc87df5c4c78417d3cbe537487274e9b0b2dce76e92096"
-"checksum textwrap 0.10.0 (registry+https://github.com/rust-lang/crates.io-index)" = "307686869c93e71f94da64286f9a9524c0f308a9e1c87a583de8e9c9039ad3f6"
-"checksum thread_local 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)" = "279ef31c19ededf577bfd12dfae728040a21f635b06a24cd670ff510edd38963"
-"checksum time 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)" = "d825be0eb33fda1a7e68012d51e9c7f451dc1a69391e7fdc197060bb8c56667b"
-"checksum tiny_http 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)" = "a442681f9f72e440be192700eeb2861e4174b9983f16f4877c93a134cb5e5f63"
-"checksum tinytemplate 1.0.1 (registry+https://github.com/rust-lang/crates.io-index)" = "7655088894274afb52b807bd3c87072daa1fedd155068b8705cabfd628956115"
-"checksum tokio 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)" = "7d00555353b013e170ed8bc4e13f648a317d1fd12157dbcae13f7013f6cf29f5"
-"checksum tokio-core 0.1.17 (registry+https://github.com/rust-lang/crates.io-index)" = "aeeffbbb94209023feaef3c196a41cbcdafa06b4a6f893f68779bb5e53796f71"
-"checksum tokio-executor 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)" = "8cac2a7883ff3567e9d66bb09100d09b33d90311feca0206c7ca034bc0c55113"
-"checksum tokio-fs 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "76766830bbf9a2d5bfb50c95350d56a2e79e2c80f675967fff448bc615899708"
-"checksum tokio-io 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)" = "6af9eb326f64b2d6b68438e1953341e00ab3cf54de7e35d92bfc73af8555313a"
-"checksum tokio-proto 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "8fbb47ae81353c63c487030659494b295f6cb6576242f907f203473b191b0389"
-"checksum tokio-reactor 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "b3cedc8e5af5131dc3423ffa4f877cce78ad25259a9a62de0613735a13ebc64b"
-"checksum tokio-service 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "24da22d077e0f15f55162bdbdc661228c1581892f52074fb242678d015b45162"
-"checksum tokio-tcp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ec9b094851aadd2caf83ba3ad8e8c4ce65a42104f7b94d9e6550023f0407853f"
-"checksum tokio-threadpool 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)" = "5783254b10c7c84a56f62c74766ef7e5b83d1f13053218c7cab8d3f2c826fa0e"
-"checksum tokio-timer 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)" = "535fed0ccee189f3d48447587697ba3fd234b3dbbb091f0ec4613ddfec0a7c4c"
-"checksum tokio-tls 0.1.4 (registry+https://github.com/rust-lang/crates.io-index)" = "772f4b04e560117fe3b0a53e490c16ddc8ba6ec437015d91fa385564996ed913"
-"checksum tokio-udp 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "137bda266504893ac4774e0ec4c2108f7ccdbcb7ac8dced6305fe9e4e0b5041a"
-"checksum toml 0.4.6 (registry+https://github.com/rust-lang/crates.io-index)" = "a0263c6c02c4db6c8f7681f9fd35e90de799ebd4cfdeab77a38f4ff6b3d8c0d9"
-"checksum try-lock 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ee2aa4715743892880f70885373966c83d73ef1b0838a664ef0c76fffd35e7c2"
-"checksum typenum 1.10.0 (registry+https://github.com/rust-lang/crates.io-index)" = "612d636f949607bdf9b123b4a6f6d966dedf3ff669f7f045890d3a4a73948169"
-"checksum ucd-util 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "fd2be2d6639d0f8fe6cdda291ad456e23629558d466e2789d2c3e9892bda285d"
-"checksum unicase 1.4.2 (registry+https://github.com/rust-lang/crates.io-index)" = "7f4765f83163b74f957c797ad9253caf97f103fb064d3999aea9568d09fc8a33"
-"checksum unicase 2.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "284b6d3db520d67fbe88fd778c21510d1b0ba4a551e5d0fbb023d33405f6de8a"
-"checksum unicode-bidi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)" = "49f2bd0c6468a8230e1db229cff8029217cf623c767ea5d60bfbd42729ea54d5"
-"checksum unicode-normalization 0.1.7 (registry+https://github.com/rust-lang/crates.io-index)" = "6a0180bc61fc5a987082bfa111f4cc95c4caff7f9799f3e46df09163a937aa25"
-"checksum unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)" = "882386231c45df4700b275c7ff55b6f3698780a650026380e72dabe76fa46526"
-"checksum unicode-xid 0.0.4 (registry+https://github.com/rust-lang/crates.io-index)" = "8c1f860d7d29cf02cb2f3f359fd35991af3d30bac52c57d265a3c461074cb4dc"
-"checksum unicode-xid 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "fc72304796d0818e357ead4e000d19c9c174ab23dc11093ac919054d20a6a7fc"
-"checksum unreachable 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "382810877fe448991dfc7f0dd6e3ae5d58088fd0ea5e35189655f84e6814fa56"
-"checksum url 1.7.0 (registry+https://github.com/rust-lang/crates.io-index)" = "f808aadd8cfec6ef90e4a14eb46f24511824d1ac596b9682703c87056c8678b7"
-"checksum utf8-ranges 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "662fab6525a98beff2921d7f61a39e7d59e0b425ebc7d0d9e66d316e55124122"
-"checksum uuid 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)" = "bcc7e3b898aa6f6c08e5295b6c89258d1331e9ac578cc992fb818759951bdc22"
-"checksum uuid 0.6.5 (registry+https://github.com/rust-lang/crates.io-index)" = "e1436e58182935dcd9ce0add9ea0b558e8a87befe01c1a301e6020aeb0876363"
-"checksum vcpkg 0.2.3 (registry+https://github.com/rust-lang/crates.io-index)" = "7ed0f6789c8a85ca41bbc1c9d175422116a9869bd1cf31bb08e1493ecce60380"
-"checksum vec_map 0.8.1 (registry+https://github.com/rust-lang/crates.io-index)" = "05c78687fb1a80548ae3250346c3db86a80a7cdd77bda190189f2d0a0987c81a"
-"checksum version_check 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)" = "6b772017e347561807c1aa192438c5fd74242a670a6cffacc40f2defd1dc069d"
-"checksum void 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)" = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
-"checksum walkdir 2.2.7 (registry+https://github.com/rust-lang/crates.io-index)" = "9d9d7ed3431229a144296213105a390676cc49c9b6a72bd19f3176c98e129fa1"
-"checksum want 0.0.4 (registry+https://github.com/rust-lang/crates.io-index)" = "a05d9d966753fa4b5c8db73fcab5eed4549cfe0e1e4e66911e5564a0085c35d1"
-"checksum winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)" = "167dc9d6949a9b857f3451275e911c3f44255842c1f7a76f33c55103a909087a"
-"checksum winapi 0.3.4 (registry+https://github.com/rust-lang/crates.io-index)" = "04e3bd221fcbe8a271359c04f21a76db7d0c6028862d1bb5512d85e1e2eb5bb3"
-"checksum winapi-build 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "2d315eee3b34aca4797b2da6b13ed88266e6d612562a0c46390af8299fc699bc"
-"checksum winapi-i686-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ac3b87c63620426dd9b991e5ce0329eff545bccbbb34f3be09ff6fb6ab51b7b6"
-"checksum winapi-util 0.1.2 (registry+https://github.com/rust-lang/crates.io-index)" = "7168bab6e1daee33b4557efd0e95d5ca70a03706d39fa5f3fe7a236f584b03c9"
-"checksum winapi-x86_64-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
-"checksum wincolor 0.1.6 (registry+https://github.com/rust-lang/crates.io-index)" = "eeb06499a3a4d44302791052df005d5232b927ed1a9658146d842165c4de7767"
-"checksum ws2_32-sys 0.2.1 (registry+https://github.com/rust-lang/crates.io-index)" = "d59cefebd0c892fa2dd6de581e937301d8552cb44489cdff035c6187cb63fa5e"
+ "winapi 0.2.8",
+ "winapi-build",
+]
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 043e2cc..e85aeff 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -309,35 +309,41 @@ impl<'a> Iterator for Padding<'a> {
                     }
                 } else {
                     self.emit_q.push(y);
-                    Some(x)
+                    Some(self.end_of_sequence(x))
                 }
             }
             (Some(x), None) => {
                 self.last_hash = x.hash();
-                // end of sequence
-                if x.skip_pad(self.pad_control) {
-                    return Some(x);
-                }
-                let flush_padded = self.flush_padded.contains(&x.hash());
-                if !flush_padded {
-                    if let Some(ts) = self.last_seen.get(&x.hash()) {
-                        if x.timestamp() > *ts {
-                            self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
-                                let sub_x =
-                                    x.clone().zero_at(x.timestamp().saturating_sub(1));
-                                let post_x = x.clone().zero_at(ts.saturating_add(1));
-                                self.emit_q.push(x);
-                                self.emit_q.push(sub_x);
-                                return Some(post_x);
-                            }
-                        }
+                Some(self.end_of_sequence(x))
+            }
+            (None, _) => None,
+        }
+    }
+}
+
+impl<'a> Padding<'a> {
+    // The last point of its sequence has no successor to pad up to but may
+    // still need padding from the last flush.
+    fn end_of_sequence(&mut self, x: Pad<'a>) -> Pad<'a> {
+        if x.skip_pad(self.pad_control) {
+            return x;
+        }
+        let flush_padded = self.flush_padded.contains(&x.hash());
+        if !flush_padded {
+            if let Some(ts) = self.last_seen.get(&x.hash()) {
+                if x.timestamp() > *ts {
+                    self.flush_padded.insert(x.hash());
+                    if (x.timestamp() - ts) / self.span > 1 {
+                        let sub_x = x.clone().zero_at(x.timestamp().saturating_sub(1));
+                        let post_x = x.clone().zero_at(ts.saturating_add(1));
+                        self.emit_q.push(x);
+                        self.emit_q.push(sub_x);
+                        return post_x;
                     }
                 }
-                Some(x)
             }
-            (None, _) => None,
         }
+        x
     }
 }
 
-- 
2.43.0


From 64f320360a0e1646f0e238485e5adb305e2a6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 37/70] fix: print zero pads of wavefront in the shape of their
 series

---
 src/sink/wavefront.rs | 48 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index e85aeff..0dda709 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -415,15 +415,9 @@ impl Wavefront {
 
             match pad {
                 Pad::Zero(value, ts) => {
-                    let zero = value
-                        .clone()
-                        .thaw()
-                        .value(0.0)
-                        .harden()
-                        .unwrap()
-                        .timestamp(ts);
                     self.fmt_val(
-                        &zero,
+                        value,
+                        Some(ts),
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -451,6 +445,7 @@ impl Wavefront {
 
                     self.fmt_val(
                         value,
+                        None,
                         &mut time_cache,
                         &mut count_cache,
                         &mut value_cache,
@@ -466,20 +461,26 @@ impl Wavefront {
         self.last_seen = last_seen;
     }
 
+    // Write the lines of a point or, given the time of a pad, the same lines
+    // with zero in place of every value.
     fn fmt_val(
         &mut self,
         value: &Telemetry,
+        pad: Option<i64>,
         mut time_cache: &mut Vec<(i64, String)>,
         mut count_cache: &mut Vec<(usize, String)>,
         mut value_cache: &mut Vec<(f64, String)>,
     ) {
         let mut tag_buf = String::with_capacity(1_024);
+        let zeroed = pad.is_some();
+        let timestamp = pad.unwrap_or(value.timestamp);
         match value.kind() {
             AggregationMethod::Histogram => {
                 if let Some(bins) = value.bins() {
                     use quantiles::histogram::Bound;
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     for &(bound, count) in bins {
+                        let count = if zeroed { 0 } else { count };
                         self.stats.push_str(&value.name);
                         self.stats.push_str("_");
                         match bound {
@@ -494,10 +495,7 @@ impl Wavefront {
                         self.stats.push_str(" ");
                         self.stats.push_str(get_from_cache(&mut count_cache, count));
                         self.stats.push_str(" ");
-                        self.stats.push_str(get_from_cache(
-                            &mut time_cache,
-                            value.timestamp,
-                        ));
+                        self.stats.push_str(get_from_cache(&mut time_cache, timestamp));
                         self.stats.push_str(" ");
                         self.stats.push_str(&tag_buf);
                         self.stats.push_str("\n");
@@ -508,12 +506,13 @@ impl Wavefront {
             }
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
+                    let v = if zeroed { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -524,12 +523,13 @@ impl Wavefront {
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
+                    let v = if zeroed { 0.0 } else { v };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(" ");
                     self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     self.stats.push_str(&tag_buf);
@@ -543,41 +543,43 @@ impl Wavefront {
                 for tup in &self.percentiles {
                     let stat: &String = &tup.0;
                     let quant: f64 = tup.1;
+                    let v = if zeroed {
+                        0.0
+                    } else {
+                        value.query(quant).unwrap()
+                    };
                     self.stats.push_str(&value.name);
                     self.stats.push_str(".");
                     self.stats.push_str(stat);
                     self.stats.push_str(" ");
-                    self.stats.push_str(get_from_cache(
-                        &mut value_cache,
-                        value.query(quant).unwrap(),
-                    ));
+                    self.stats.push_str(get_from_cache(&mut value_cache, v));
                     self.stats.push_str(" ");
                     self.stats
-                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                        .push_str(get_from_cache(&mut time_cache, timestamp));
                     self.stats.push_str(" ");
                     self.stats.push_str(&tag_buf);
                     self.stats.push_str("\n");
                 }
-                let count = value.count();
+                let count = if zeroed { 0 } else { value.count() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".count");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut count_cache, count));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
 
-                let mean = value.mean();
+                let mean = if zeroed { 0.0 } else { value.mean() };
                 self.stats.push_str(&value.name);
                 self.stats.push_str(".mean");
                 self.stats.push_str(" ");
                 self.stats.push_str(get_from_cache(&mut value_cache, mean));
                 self.stats.push_str(" ");
                 self.stats
-                    .push_str(get_from_cache(&mut time_cache, value.timestamp));
+                    .push_str(get_from_cache(&mut time_cache, timestamp));
                 self.stats.push_str(" ");
                 self.stats.push_str(&tag_buf);
                 self.stats.push_str("\n");
-- 
2.43.0


From 0fec322a32eedb4f50934a80d72ef26b17a0abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 38/70] fix: measure wavefront's gaps and ages without overflow

---
 src/sink/wavefront.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 0dda709..da08863 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -261,7 +261,7 @@ impl<'a> Iterator for Padding<'a> {
                         if let Some(ts) = self.last_seen.get(&x.hash()) {
                             if x.timestamp() > *ts {
                                 self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
+                                if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                                     let sub_x = x
                                         .clone()
                                         .zero_at(x.timestamp().saturating_sub(1));
@@ -278,7 +278,7 @@ impl<'a> Iterator for Padding<'a> {
                             }
                         }
                     }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
+                    match y.timestamp().saturating_sub(x.timestamp()) / self.span {
                         0 | 1 => {
                             // In this case the next point, y, is within the
                             // span configured by the user. We stash it into
@@ -333,7 +333,7 @@ impl<'a> Padding<'a> {
             if let Some(ts) = self.last_seen.get(&x.hash()) {
                 if x.timestamp() > *ts {
                     self.flush_padded.insert(x.hash());
-                    if (x.timestamp() - ts) / self.span > 1 {
+                    if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                         let sub_x = x.clone().zero_at(x.timestamp().saturating_sub(1));
                         let post_x = x.clone().zero_at(ts.saturating_add(1));
                         self.emit_q.push(x);
@@ -654,7 +654,11 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            let age = telem
+                .timestamp
+                .checked_sub(time::now())
+                .and_then(i64::checked_abs);
+            if age.map_or(false, |age| age as u64 <= age_threshold) {
                 self.aggrs.add(telem);
             }
         } else {
-- 
2.43.0


From a942591553bc43e32123605a5b2cab531dc2ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 39/70] fix: take no infinite or NaN measurement from a script

---
 src/filter/programmable_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index a5f0470..27e1a9d 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -149,6 +149,9 @@ impl<'a> Payload<'a> {
         let pyld = payload_arg(&mut state);
         let val = state.to_number(3);
         match str_arg(&state, 2) {
+            Some(_) if !val.is_finite() => {
+                error!("[push_metric] value is not a finite number");
+            }
             Some(name) => {
                 let m = metric::Telemetry::new()
                     .name(name)
-- 
2.43.0


From d5ae1c7516e8af15765e32ac98bf9b17444f713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 40/70] fix: open wavefront's valve however many series persist

---
 src/sink/wavefront.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index da08863..c0a0a0e 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -63,6 +63,7 @@ pub struct Wavefront {
     port: u16,
     bin_width: i64,
     aggrs: buckets::Buckets,
+    carried: usize,
     delivery_attempts: u32,
     percentiles: Vec<(String, f64)>,
     stats: String,
@@ -458,6 +459,8 @@ impl Wavefront {
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
+        // What persists remains stored however often we flush.
+        self.carried = self.aggrs.count();
         self.last_seen = last_seen;
     }
 
@@ -601,6 +604,7 @@ impl Sink<WavefrontConfig> for Wavefront {
             port: config.port,
             bin_width: config.bin_width,
             aggrs: buckets::Buckets::new(config.bin_width),
+            carried: 0,
             delivery_attempts: 0,
             percentiles: config.percentiles,
             stats: String::with_capacity(0x2000),
@@ -669,7 +673,7 @@ impl Sink<WavefrontConfig> for Wavefront {
     fn valve_state(&self) -> Valve {
         let total_values = self.aggrs.count();
         WAVEFRONT_AGGR_STORED_VALUES.store(total_values, Ordering::Relaxed);
-        if total_values > 10_000 {
+        if total_values.saturating_sub(self.carried) > 10_000 {
             WAVEFRONT_VALVE_CLOSED.fetch_add(1, Ordering::Relaxed);
             Valve::Closed
         } else {
-- 
2.43.0


From f5b9588cae6c1d49917d99eb946d3c6736c33d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 41/70] fix: reconnect to a wavefront proxy that closed before
 the flush

---
 src/sink/wavefront.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index c0a0a0e..bdeb2b4 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -7,7 +7,7 @@ use crate::source::flushes_per_second;
 use crate::time;
 use std::cmp;
 use std::collections::{HashMap, HashSet};
-use std::io::Write as IoWrite;
+use std::io::{self, Write as IoWrite};
 use std::mem;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
@@ -390,6 +390,19 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+// A peer that closed the connection since the last flush shows as the end of
+// its stream. Lines written to it would be lost without any error.
+fn closed_by_peer(stream: &TcpStream) -> bool {
+    if stream.set_nonblocking(true).is_err() {
+        return true;
+    }
+    let closed = match stream.peek(&mut [0; 1]) {
+        Ok(n) => n == 0,
+        Err(e) => e.kind() != io::ErrorKind::WouldBlock,
+    };
+    stream.set_nonblocking(false).is_err() || closed
+}
+
 impl Wavefront {
     /// Convert the buckets into a String that
     /// can be sent to the the wavefront proxy
@@ -623,6 +636,9 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn flush(&mut self) {
         self.format_stats();
+        if self.stream.as_ref().map_or(false, closed_by_peer) {
+            self.stream = None;
+        }
         loop {
             if self.delivery_attempts > 0 {
                 debug!("delivery attempts: {}", self.delivery_attempts);
-- 
2.43.0


From 89314f0fb8c082b77b8c1b62cd4967aa1d75b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 42/70] fix: keep prometheus series apart by their tags

---
 src/sink/prometheus.rs | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..ee94803 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -53,6 +53,9 @@ pub struct Prometheus {
     age_threshold: Option<u64>,
     http_srv: Server,
     tags: TagMap,
+    // The aggregation kind of each exposed name, fixed by its first point: a
+    // name is exposed with one TYPE, whatever its tags.
+    kinds: HashMap<String, AggregationMethod>,
 }
 
 /// The configuration for Prometheus sink
@@ -277,7 +280,7 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        let entry: Entry<String, Accumulator> = self.data.entry(telem.name.clone());
+        let entry: Entry<String, Accumulator> = self.data.entry(series_key(&telem));
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
@@ -331,6 +334,18 @@ impl PrometheusAggr {
     }
 }
 
+/// The key of a Telemetry's time-series: its name and, if any, its own tags.
+fn series_key(telem: &Telemetry) -> String {
+    let none = TagMap::default();
+    let mut tags: Vec<(&String, &String)> = telem.tags(&none).collect();
+    tags.sort();
+    let mut key = telem.name.clone();
+    for (k, v) in tags {
+        key.push_str(&format!("\u{0}{}:{}{}:{}", k.len(), k, v.len(), v));
+    }
+    key
+}
+
 /// Iteration struct for the bucket. Created by `Buckets.iter()`.
 pub struct Iter<'a> {
     samples: Values<'a, String, Accumulator>,
@@ -501,12 +516,15 @@ where
     W: Write,
 {
     let mut seen: HashSet<String> = HashSet::new();
-    for value in aggrs {
-        let sanitized_name: String = sanitize(&value.name);
+    // All series of one name are exposed as one family.
+    let mut aggrs: Vec<(String, Telemetry)> =
+        aggrs.map(|value| (sanitize(&value.name), value)).collect();
+    aggrs.sort_by(|l, r| l.0.cmp(&r.0));
+    for (sanitized_name, value) in aggrs {
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -514,7 +532,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -522,7 +540,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -563,7 +581,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
@@ -646,6 +664,7 @@ impl Sink<PrometheusConfig> for Prometheus {
                 },
             ),
             tags: config.tags,
+            kinds: HashMap::new(),
         }
     }
 
@@ -660,10 +679,17 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
-                self.aggrs.lock().unwrap().insert(telem);
+            if (telem.timestamp - time::now()).abs() > (age_threshold as i64) {
+                return;
             }
-        } else {
+        }
+        let kind = telem.kind();
+        if *self.kinds.entry(sanitize(&telem.name)).or_insert(kind) == kind {
+            let tags: TagMap = telem
+                .tags(&self.tags)
+                .map(|(k, v)| (k.clone(), v.clone()))
+                .collect();
+            let telem = telem.overlay_tags_from_map(&tags);
             self.aggrs.lock().unwrap().insert(telem);
         }
     }
-- 
2.43.0


From a84e5cf1c4852a8f017a12bb93289c4b2d5a06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 43/70] fix: answer every prometheus scrape, contended or empty

---
 src/sink/prometheus.rs | 58 ++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index ee94803..2f6a322 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -408,7 +408,7 @@ struct PrometheusHandler {
 impl Handler for PrometheusHandler {
     fn handle(&self, request: Request) {
         let mut buffer = Vec::with_capacity(2048);
-        if let Ok(ref aggr) = self.aggr.try_lock() {
+        if let Ok(ref aggr) = self.aggr.lock() {
             PROMETHEUS_AGGR_REPORTABLE.store(aggr.count(), Ordering::Relaxed);
             let reportable = aggr.reportable();
             let now = Instant::now();
@@ -425,36 +425,34 @@ impl Handler for PrometheusHandler {
                 + (f64::from(elapsed.subsec_nanos()) / 100_000.0);
             PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);
         }
-        if !buffer.is_empty() {
-            let content_type = "text/plain; version=0.0.4";
-            let mut headers =
-                vec![Header::from_bytes(&b"Content-Type"[..], content_type).unwrap()];
-            if self.gzip {
-                let content_encoding = "gzip";
-                headers.push(
-                    Header::from_bytes(&b"Content-Encoding"[..], content_encoding)
-                        .unwrap(),
-                )
-            };
+        let content_type = "text/plain; version=0.0.4";
+        let mut headers =
+            vec![Header::from_bytes(&b"Content-Type"[..], content_type).unwrap()];
+        if self.gzip {
+            let content_encoding = "gzip";
+            headers.push(
+                Header::from_bytes(&b"Content-Encoding"[..], content_encoding)
+                    .unwrap(),
+            )
+        };
+
+        let response = Response::new(
+            StatusCode::from(200),
+            headers.to_vec(),
+            &buffer[..],
+            Some(buffer.len()),
+            None,
+        );
 
-            let response = Response::new(
-                StatusCode::from(200),
-                headers.to_vec(),
-                &buffer[..],
-                Some(buffer.len()),
-                None,
-            );
-
-            match request.respond(response) {
-                Ok(_) => {
-                    PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
-                }
-                Err(e) => {
-                    PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
-                    warn!("Failed to send prometheus response! {:?}", e);
-                }
-            };
-        }
+        match request.respond(response) {
+            Ok(_) => {
+                PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
+            }
+            Err(e) => {
+                PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
+                warn!("Failed to send prometheus response! {:?}", e);
+            }
+        };
     }
 }
 
-- 
2.43.0


From c13a3bc837650101944e04e728ea2b3f313ce4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 44/70] fix: count and sum every sample of a prometheus summary

---
 src/sink/prometheus.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 2f6a322..e03f79e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -161,14 +161,15 @@ impl Accumulator {
             } => {
                 use std::u64;
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
-                // u64::wrapping_add makes a new u64. We need this to be
-                // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                // A Telemetry may carry any number of samples. u64::wrapping_add
+                // makes a new u64. We need this to be in-place. Oops!
+                let cnt = telem.count() as u64;
+                if (u64::MAX - *count) <= cnt {
+                    *count = cnt;
                 } else {
-                    *count += 1;
+                    *count += cnt;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -296,15 +297,14 @@ impl PrometheusAggr {
                     | AggregationMethod::Sum
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
-                        let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
-                        samples.push(telem);
-                        Accumulator::Windowed {
+                        let mut accum = Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
-                            sum,
-                            samples,
-                        }
+                            count: 0,
+                            sum: 0.0,
+                            samples: Vec::new(),
+                        };
+                        accum.insert(telem);
+                        accum
                     }
                 });
             }
-- 
2.43.0


From 86795cdea526ef895aedeb2533a779714c8a2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 45/70] fix: take prometheus ages of any timestamp and window

---
 src/sink/prometheus.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index e03f79e..1c87054 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -95,6 +95,11 @@ impl Default for PrometheusConfig {
     }
 }
 
+/// True if a timestamp is more than `secs` away from now.
+fn is_older(timestamp: i64, secs: u64) -> bool {
+    (i128::from(timestamp) - i128::from(time::now())).abs() > i128::from(secs)
+}
+
 #[derive(Clone, Debug)]
 enum Accumulator {
     Perpetual(Telemetry),
@@ -138,7 +143,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if is_older(samples[i].timestamp, cap as u64) {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -677,7 +682,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() > (age_threshold as i64) {
+            if is_older(telem.timestamp, age_threshold) {
                 return;
             }
         }
-- 
2.43.0


From a90270d64fd9c1ffd2227856d50802a6834729b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 46/70] fix: expose valid label values, numbers and names to
 prometheus

---
 src/sink/prometheus.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 1c87054..a395df3 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -468,7 +468,14 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    for c in v.as_bytes() {
+        match *c {
+            b'\\' => s.write_all(b"\\\\")?,
+            b'"' => s.write_all(b"\\\"")?,
+            b'\n' => s.write_all(b"\\n")?,
+            c => s.write_all(&[c])?,
+        }
+    }
     s.write_all(b"\"")
 }
 
@@ -490,6 +497,18 @@ where
     }
 }
 
+#[inline]
+fn write_value<W>(v: f64, w: &mut W) -> io::Result<()>
+where
+    W: Write,
+{
+    if v.is_infinite() {
+        w.write_all(if v > 0.0 { b"+Inf" } else { b"-Inf" })
+    } else {
+        w.write_all(v.to_string().as_bytes())
+    }
+}
+
 #[inline]
 fn write_metric<W>(name: &String, tags: TagIter, v: f64, w: &mut W) -> io::Result<()>
 where
@@ -498,7 +517,7 @@ where
     w.write_all(name.as_bytes())?;
     write_tags(tags, w)?;
     w.write_all(b" ")?;
-    w.write_all(v.to_string().as_bytes())?;
+    write_value(v, w)?;
     w.write_all(b"\n")
 }
 
@@ -600,7 +619,7 @@ where
                     }
                     w.write_all(b"} ")?;
 
-                    w.write_all(value.query(*q).unwrap().to_string().as_bytes())?;
+                    write_value(value.query(*q).unwrap(), &mut w)?;
                     w.write_all(b"\n")?;
                 }
                 let sum_value = value.samples_sum().unwrap_or(0.0);
@@ -639,6 +658,10 @@ where
 fn sanitize(name: &str) -> String {
     let name: String = name.to_string();
     let mut new_name: Vec<u8> = Vec::with_capacity(128);
+    // A valid name is not empty and does not begin with a digit.
+    if name.as_bytes().first().map_or(true, |c| c.is_ascii_digit()) {
+        new_name.push(b'_');
+    }
     for c in name.as_bytes() {
         match *c {
             b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
-- 
2.43.0


From 44c17bf17af4319782e3dd87e9942b21a922bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 47/70] fix: flush persisting wavefront points of any time

---
 src/sink/wavefront.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index bdeb2b4..d16ebb7 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -438,11 +438,6 @@ impl Wavefront {
                     );
                 }
                 Pad::Telem(value) => {
-                    if value.persist {
-                        let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
-                    }
-
                     match value.kind() {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
-- 
2.43.0


From 98960c5072a3a5d16db7ed6faf10666b9f7da980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 48/70] fix: escape names and tags in influxdb lines

---
 src/sink/influxdb.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..aa4fdb2 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,13 +74,38 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// Write text with the given characters escaped, as line protocol wants it.
+/// There is no way to write a line break, nor a backslash at the end.
+fn push_escaped(text: &str, special: &[char], s: &mut String) {
+    for c in text.trim_end_matches('\\').chars() {
+        match c {
+            '\n' => s.push_str("\\n"),
+            _ => {
+                if special.contains(&c) {
+                    s.push('\\');
+                }
+                s.push(c);
+            }
+        }
+    }
+}
+
+#[inline]
+fn fmt_name(name: &str, s: &mut String) {
+    push_escaped(name, &[',', ' '], s);
+}
+
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
+        // Empty keys and values are not allowed.
+        if k.trim_end_matches('\\').is_empty() || v.trim_end_matches('\\').is_empty() {
+            continue;
+        }
         s.push_str(",");
-        s.push_str(k);
+        push_escaped(k, &[',', ' ', '='], s);
         s.push_str("=");
-        s.push_str(v);
+        push_escaped(v, &[',', ' ', '='], s);
     }
 }
 
@@ -111,7 +136,7 @@ impl InfluxDB {
             match telem.kind() {
                 AggregationMethod::Sum => {
                     if let Some(val) = telem.sum() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -128,7 +153,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Set => {
                     if let Some(val) = telem.set() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -150,8 +175,7 @@ impl InfluxDB {
                                 Bound::Finite(x) => format!("le_{}", x),
                                 Bound::PosInf => "le_inf".to_string(),
                             };
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, bound_name));
+                            fmt_name(&format!("{}.{}", &telem.name, bound_name), buffer);
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
@@ -173,8 +197,7 @@ impl InfluxDB {
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
                         if let Some(val) = telem.query(*percentile) {
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, percentile));
+                            fmt_name(&format!("{}.{}", &telem.name, percentile), buffer);
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
-- 
2.43.0


From f5e6f9d20c0fd05864ccd3a5608bd19ef762859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 49/70] fix: write influxdb times before 1970 as such

---
 src/sink/influxdb.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index aa4fdb2..9147322 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -109,6 +109,12 @@ fn fmt_tags(tags: TagIter, s: &mut String) {
     }
 }
 
+/// The time in nanoseconds, within the range the database accepts.
+fn nanos(timestamp: i64) -> i64 {
+    let ns = timestamp.saturating_mul(1_000_000_000);
+    cmp::min(cmp::max(ns, i64::min_value() + 2), i64::max_value() - 1)
+}
+
 #[inline]
 fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
@@ -128,7 +134,7 @@ impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -145,7 +151,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            nanos(telem.timestamp),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -162,7 +168,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            nanos(telem.timestamp),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -187,7 +193,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                nanos(telem.timestamp),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -206,7 +212,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                nanos(telem.timestamp),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From 074ea670ae37e1120100abbb3c31e106cec0e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 50/70] fix: keep values influxdb always refuses out of its
 lines

---
 src/sink/influxdb.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 9147322..c131289 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -139,9 +139,11 @@ impl InfluxDB {
 
         let mut tag_buf = String::with_capacity(1_024);
         for telem in telems.iter() {
+            // A line the database cannot parse is refused however often it is
+            // sent: a value must be finite.
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(|v| v.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -158,7 +160,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(|v| v.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -202,7 +204,9 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) =
+                            telem.query(*percentile).filter(|v| v.is_finite())
+                        {
                             fmt_name(&format!("{}.{}", &telem.name, percentile), buffer);
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
-- 
2.43.0


From da1139a18996de3e7f2e6df25b6ced6f5a631324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 51/70] fix: ignore unknown and repeated items of a bulk
 response

---
 src/sink/elasticsearch.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index e06f896..a117b92 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -8,7 +8,6 @@ use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -153,6 +152,13 @@ impl Elasticsearch {
             buffer.push('\n');
         }
     }
+
+    /// The place in the buffer of the line the server calls `id`, if any: a
+    /// response may name lines twice or ones we do not hold.
+    fn position(&self, id: &str) -> Option<usize> {
+        let uuid = uuid::Uuid::parse_str(id).ok()?;
+        self.buffer.iter().position(|line| line.uuid == uuid)
+    }
 }
 
 impl Sink<ElasticsearchConfig> for Elasticsearch {
@@ -196,33 +202,19 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
-                                }
+                                let idx = match self.position(item.id()) {
+                                    Some(idx) => idx,
+                                    None => continue,
+                                };
                                 self.buffer.remove(idx);
                                 ELASTIC_RECORDS_TOTAL_DELIVERED
                                     .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
-                                }
+                                let idx = match self.position(item.id()) {
+                                    Some(idx) => idx,
+                                    None => continue,
+                                };
                                 self.buffer[idx].attempts += 1;
                                 if self.buffer[idx].attempts
                                     > self.delivery_attempt_limit
-- 
2.43.0


From ab76a26cdaa9589726c507a2d5166cdaaa1b396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 52/70] fix: give up on a line after 255 attempts too

---
 src/sink/elasticsearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a117b92..e8cd07b 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -99,7 +99,7 @@ impl Default for ElasticsearchConfig {
 }
 
 struct Line {
-    attempts: u8,
+    attempts: u16,
     uuid: uuid::Uuid,
     line: LogLine,
 }
@@ -217,7 +217,7 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                                 };
                                 self.buffer[idx].attempts += 1;
                                 if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
+                                    > u16::from(self.delivery_attempt_limit)
                                 {
                                     self.buffer.remove(idx);
                                 }
-- 
2.43.0


From f6995c1c3e2dfff54a28703429816321b302789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 53/70] fix: send what the native sink flushes, all of it

---
 src/sink/mod.rs       | 15 +++++++++++++
 src/sink/native.rs    | 49 ++++++++++++++++++++++++++-----------------
 src/sink/wavefront.rs | 15 +------------
 3 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 3714833..e564c37 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -9,7 +9,9 @@ use crate::thread;
 use crate::time;
 use crate::util::Valve;
 use hopper;
+use std::io;
 use std::marker::PhantomData;
+use std::net::TcpStream;
 use uuid::Uuid;
 
 mod console;
@@ -30,6 +32,19 @@ pub use self::null::{Null, NullConfig};
 pub use self::prometheus::{Prometheus, PrometheusConfig};
 pub use self::wavefront::{Wavefront, WavefrontConfig};
 
+// A peer that closed the connection since the last flush shows as the end of
+// its stream. What is written to it would be lost without any error.
+fn closed_by_peer(stream: &TcpStream) -> bool {
+    if stream.set_nonblocking(true).is_err() {
+        return true;
+    }
+    let closed = match stream.peek(&mut [0; 1]) {
+        Ok(n) => n == 0,
+        Err(e) => e.kind() != io::ErrorKind::WouldBlock,
+    };
+    stream.set_nonblocking(false).is_err() || closed
+}
+
 /// Generic interface used to capture global sink configuration
 /// parameters as well as sink specific parameters.
 ///
diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..2e78fdd 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -2,15 +2,15 @@
 
 use crate::metric;
 use crate::protocols::native::{AggregationMethod, LogLine, Payload, Telemetry};
-use crate::sink::Sink;
+use crate::sink::{closed_by_peer, Sink};
 use crate::source::flushes_per_second;
 use crate::time;
 use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
 use protobuf::stream::CodedOutputStream;
-use protobuf::Message;
+use protobuf::{Message, ProtobufResult};
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -88,6 +88,22 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+// Write one length-prefixed payload, all of it.
+fn send(stream: &mut TcpStream, pyld: &Payload) -> ProtobufResult<()> {
+    let mut bufwrite = BufWriter::new(stream);
+    {
+        let mut stream = CodedOutputStream::new(&mut bufwrite);
+        let mut sz_buf = [0; 4];
+        let pyld_len = pyld.compute_size();
+        BigEndian::write_u32(&mut sz_buf, pyld_len);
+        stream.write_raw_bytes(&sz_buf)?;
+        pyld.write_to_with_cached_sizes(&mut stream)?;
+        stream.flush()?;
+    }
+    bufwrite.flush()?;
+    Ok(())
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -171,34 +187,29 @@ impl Sink<NativeConfig> for Native {
             }
         }
 
+        if points.is_empty() && lines.is_empty() {
+            return;
+        }
         let mut pyld = Payload::new();
         pyld.set_points(RepeatedField::from_vec(points));
         pyld.set_lines(RepeatedField::from_vec(lines));
 
         loop {
-            let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-                let mut bufwrite = BufWriter::new(stream);
-                let mut stream = CodedOutputStream::new(&mut bufwrite);
-                let mut sz_buf = [0; 4];
-                let pyld_len = pyld.compute_size();
-                BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
-                    self.buffer.clear();
+                if !closed_by_peer(stream) && send(stream, &pyld).is_ok() {
+                    self.delivery_attempts = 0;
                     return;
-                } else {
-                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-                    delivery_failure = true;
                 }
+                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
             } else {
                 time::delay(self.delivery_attempts);
                 self.stream = connect(&self.host, self.port);
+                if self.stream.is_some() {
+                    continue;
+                }
+                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
             }
-            if delivery_failure {
-                self.stream = None
-            }
+            self.stream = None;
         }
     }
 
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index d16ebb7..651e1ac 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -2,7 +2,7 @@
 
 use crate::buckets;
 use crate::metric::{AggregationMethod, TagIter, TagMap, Telemetry};
-use crate::sink::{Sink, Valve};
+use crate::sink::{closed_by_peer, Sink, Valve};
 use crate::source::flushes_per_second;
 use crate::time;
 use std::cmp;
@@ -390,19 +390,6 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
-// A peer that closed the connection since the last flush shows as the end of
-// its stream. Lines written to it would be lost without any error.
-fn closed_by_peer(stream: &TcpStream) -> bool {
-    if stream.set_nonblocking(true).is_err() {
-        return true;
-    }
-    let closed = match stream.peek(&mut [0; 1]) {
-        Ok(n) => n == 0,
-        Err(e) => e.kind() != io::ErrorKind::WouldBlock,
-    };
-    stream.set_nonblocking(false).is_err() || closed
-}
-
 impl Wavefront {
     /// Convert the buckets into a String that
     /// can be sent to the the wavefront proxy
-- 
2.43.0


From 9111fa54d3675a9af14b1f8c5b2e8fd8e6724e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 54/70] fix: carry native times of any size

---
 src/sink/native.rs   | 4 ++--
 src/source/native.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2e78fdd..0211bf8 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -159,7 +159,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -179,7 +179,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
diff --git a/src/source/native.rs b/src/source/native.rs
index 207f12f..bb786ca 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -145,7 +145,7 @@ impl NativeStreamHandler {
                     let aggr_type: AggregationMethod = point.get_method();
                     let mut meta = point.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = point.get_timestamp_ms() / 1000;
 
                     if smpls.is_empty() {
                         continue;
@@ -190,7 +190,7 @@ impl NativeStreamHandler {
                     let value: String = line.take_value();
                     let mut meta = line.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = line.get_timestamp_ms() / 1000;
 
                     let mut logline = metric::LogLine::new(path, value);
                     logline = logline.time(ts);
-- 
2.43.0


From d8f342c7ea0ec1f37fa5ee8a7b80d0fa4a9dd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 55/70] fix: divide native payloads at the size the source
 accepts

---
 src/constants.rs     |  3 ++
 src/sink/native.rs   | 78 +++++++++++++++++++++++++++++++-------------
 src/source/native.rs |  5 ++-
 3 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 29a7dc3..5da850d 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -7,3 +7,6 @@ use mio;
 /// Note - It is assumed that sources will not hold
 /// more than 2048 addressable streams, 0 indexed.
 pub const SYSTEM: mio::Token = mio::Token(2048);
+
+/// Size in bytes of the largest native payload that the native source accepts.
+pub const MAX_NATIVE_PAYLOAD: usize = 1_048_576;
diff --git a/src/sink/native.rs b/src/sink/native.rs
index 0211bf8..bdc6cae 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -1,5 +1,6 @@
 //! Sink for Cernan's native protocol.
 
+use crate::constants::MAX_NATIVE_PAYLOAD;
 use crate::metric;
 use crate::protocols::native::{AggregationMethod, LogLine, Payload, Telemetry};
 use crate::sink::{closed_by_peer, Sink};
@@ -104,6 +105,58 @@ fn send(stream: &mut TcpStream, pyld: &Payload) -> ProtobufResult<()> {
     Ok(())
 }
 
+// Divide what is to be sent into payloads that the native source accepts.
+fn payloads(mut points: Vec<Telemetry>, mut lines: Vec<LogLine>) -> Vec<Payload> {
+    let total = points.len() + lines.len();
+    if total == 0 {
+        return Vec::new();
+    }
+    let mut pyld = Payload::new();
+    pyld.set_points(RepeatedField::from_vec(points));
+    pyld.set_lines(RepeatedField::from_vec(lines));
+    let size = pyld.compute_size() as usize;
+    if size <= MAX_NATIVE_PAYLOAD {
+        return vec![pyld];
+    }
+    if total == 1 {
+        error!("Dropping an event of {} bytes, too large to send", size);
+        return Vec::new();
+    }
+    points = pyld.take_points().into_vec();
+    lines = pyld.take_lines().into_vec();
+    let mid = total / 2;
+    let cut = points.len().min(mid);
+    let later_points = points.split_off(cut);
+    let later_lines = lines.split_off(mid - cut);
+    let mut pylds = payloads(points, lines);
+    // Points go before lines, as they do in an undivided payload.
+    pylds.extend(payloads(later_points, later_lines));
+    pylds
+}
+
+impl Native {
+    // Send the payload, however many connections this takes.
+    fn deliver_payload(&mut self, pyld: &Payload) {
+        loop {
+            if let Some(ref mut stream) = self.stream {
+                if !closed_by_peer(stream) && send(stream, pyld).is_ok() {
+                    self.delivery_attempts = 0;
+                    return;
+                }
+                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+            } else {
+                time::delay(self.delivery_attempts);
+                self.stream = connect(&self.host, self.port);
+                if self.stream.is_some() {
+                    continue;
+                }
+                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+            }
+            self.stream = None;
+        }
+    }
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -187,29 +240,8 @@ impl Sink<NativeConfig> for Native {
             }
         }
 
-        if points.is_empty() && lines.is_empty() {
-            return;
-        }
-        let mut pyld = Payload::new();
-        pyld.set_points(RepeatedField::from_vec(points));
-        pyld.set_lines(RepeatedField::from_vec(lines));
-
-        loop {
-            if let Some(ref mut stream) = self.stream {
-                if !closed_by_peer(stream) && send(stream, &pyld).is_ok() {
-                    self.delivery_attempts = 0;
-                    return;
-                }
-                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-            } else {
-                time::delay(self.delivery_attempts);
-                self.stream = connect(&self.host, self.port);
-                if self.stream.is_some() {
-                    continue;
-                }
-                self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-            }
-            self.stream = None;
+        for pyld in payloads(points, lines) {
+            self.deliver_payload(&pyld);
         }
     }
 
diff --git a/src/source/native.rs b/src/source/native.rs
index bb786ca..8cf7be8 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -68,7 +68,10 @@ impl TCPStreamHandler for NativeStreamHandler {
         stream: mio::net::TcpStream,
     ) {
         let mut streaming = true;
-        let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
+        let mut reader = BufferedPayload::new(
+            stream.try_clone().unwrap(),
+            constants::MAX_NATIVE_PAYLOAD,
+        );
         while streaming {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
-- 
2.43.0


From 734a2c8e246787d6a33077d024e5ad94d372ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 56/70] fix: size the samples of a native point as they are
 written

---
 src/protocols/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/native.rs b/src/protocols/native.rs
index 002f250..31ddaf6 100644
--- a/src/protocols/native.rs
+++ b/src/protocols/native.rs
@@ -915,7 +915,7 @@ impl ::protobuf::Message for Telemetry {
             my_size += ::protobuf::rt::string_size(1, &v);
         }
         if !self.samples.is_empty() {
-            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(self.samples.len() as u32) + (self.samples.len() * 8) as u32;
+            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;
         }
         if let Some(v) = self.persisted {
             my_size += 2;
-- 
2.43.0


From 20fe5f85d062d547c0b9076774adf959e43a7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 57/70] fix: take the newer of two histograms whose bounds
 differ

---
 src/metric/telemetry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index d6548ae..38d197c 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -110,8 +110,13 @@ impl Add for Value {
                 Value::Set(y) => Value::Set(y),
                 Value::Sum(y) => Value::Sum(x.sum().unwrap_or(0.0) + y),
                 Value::Histogram(y) => {
-                    x += y;
-                    Value::Histogram(x)
+                    // Counts of bins with other bounds have nothing in common.
+                    if x.iter().map(|bin| bin.0).eq(y.iter().map(|bin| bin.0)) {
+                        x += y;
+                        Value::Histogram(x)
+                    } else {
+                        Value::Histogram(y)
+                    }
                 }
                 Value::Quantiles { ckms, sum } => Value::Quantiles { ckms, sum },
             },
-- 
2.43.0


From 3d9c84478146006331a700f49aacc17efe844317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 58/70] fix: emit a line of a file once its newline is written

---
 src/source/file/file_watcher.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..0cb71f6 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -19,6 +19,8 @@ pub struct FileWatcher {
     file_id: Option<(u64, u64)>,
     previous_size: u64,
     reopen: bool,
+    // Bytes of a line whose newline has not been written yet.
+    partial: Vec<u8>,
 }
 
 type Devno = u64;
@@ -56,6 +58,7 @@ impl FileWatcher {
                     file_id: Some((dev, ino)),
                     previous_size: 0,
                     reopen: false,
+                    partial: Vec::new(),
                 })
             }
             Err(e) => match e.kind() {
@@ -67,6 +70,7 @@ impl FileWatcher {
                             file_id: None,
                             previous_size: 0,
                             reopen: false,
+                            partial: Vec::new(),
                         }
                     };
                     Ok(fw)
@@ -115,7 +119,7 @@ impl FileWatcher {
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
     /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -146,6 +150,7 @@ impl FileWatcher {
             let current_size = reader.get_ref().metadata().unwrap().size();
             if self.previous_size > current_size {
                 assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
+                self.partial.clear();
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
                     (self.previous_size - current_size) as f64,
@@ -158,16 +163,19 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
-                Ok(0) => {
-                    if file_id(&self.path) != self.file_id {
+            match reader.read_until(b'\n', &mut self.partial) {
+                Ok(_) => {
+                    if self.partial.ends_with(b"\n") {
+                        self.partial.pop();
+                    } else if file_id(&self.path) != self.file_id {
+                        // No more will come, a line left without its newline
+                        // is complete.
                         self.reopen = true;
+                    } else {
+                        return Ok(0);
                     }
-                    Ok(0)
-                }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
+                    buffer.push_str(&String::from_utf8_lossy(&self.partial));
+                    self.partial.clear();
                     Ok(buffer.len())
                 }
                 Err(e) => {
-- 
2.43.0


From 574998992f2ee130336855a1c753def5c8dacfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 59/70] fix: read on after a blank line of a file

---
 src/source/file/file_watcher.rs | 42 +++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 0cb71f6..77605a1 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -163,26 +163,32 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_until(b'\n', &mut self.partial) {
-                Ok(_) => {
-                    if self.partial.ends_with(b"\n") {
-                        self.partial.pop();
-                    } else if file_id(&self.path) != self.file_id {
-                        // No more will come, a line left without its newline
-                        // is complete.
-                        self.reopen = true;
-                    } else {
-                        return Ok(0);
+            loop {
+                match reader.read_until(b'\n', &mut self.partial) {
+                    Ok(_) => {
+                        if self.partial.ends_with(b"\n") {
+                            self.partial.pop();
+                            if self.partial.is_empty() {
+                                // There is nothing to report of a blank line.
+                                continue;
+                            }
+                        } else if file_id(&self.path) != self.file_id {
+                            // No more will come, a line left without its newline
+                            // is complete.
+                            self.reopen = true;
+                        } else {
+                            return Ok(0);
+                        }
+                        buffer.push_str(&String::from_utf8_lossy(&self.partial));
+                        self.partial.clear();
+                        return Ok(buffer.len());
                     }
-                    buffer.push_str(&String::from_utf8_lossy(&self.partial));
-                    self.partial.clear();
-                    Ok(buffer.len())
-                }
-                Err(e) => {
-                    if let io::ErrorKind::NotFound = e.kind() {
-                        self.reopen = true;
+                    Err(e) => {
+                        if let io::ErrorKind::NotFound = e.kind() {
+                            self.reopen = true;
+                        }
+                        return Err(e);
                     }
-                    Err(e)
                 }
             }
         } else {
-- 
2.43.0


From f74770ab069616ab8e81921573f8d8f6c09c269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 60/70] fix: read a rotated file to its end

---
 src/source/file/file_watcher.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 77605a1..8ad9efb 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -38,6 +38,23 @@ fn file_id(path: &PathBuf) -> Option<FileId> {
     }
 }
 
+/// Determine if the file read so far has made way for another one or is gone.
+/// A file that has been renamed goes on until there is one under its old path.
+fn is_superseded(
+    reader: &io::BufReader<fs::File>,
+    path: &PathBuf,
+    previous: Option<FileId>,
+) -> bool {
+    match file_id(path) {
+        None => reader
+            .get_ref()
+            .metadata()
+            .map(|metadata| metadata.nlink() == 0)
+            .unwrap_or(true),
+        current => current != previous,
+    }
+}
+
 impl FileWatcher {
     /// Create a new `FileWatcher`
     ///
@@ -163,6 +180,7 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
+            let mut superseded = false;
             loop {
                 match reader.read_until(b'\n', &mut self.partial) {
                     Ok(_) => {
@@ -172,10 +190,14 @@ impl FileWatcher {
                                 // There is nothing to report of a blank line.
                                 continue;
                             }
-                        } else if file_id(&self.path) != self.file_id {
+                        } else if superseded {
                             // No more will come, a line left without its newline
                             // is complete.
                             self.reopen = true;
+                        } else if is_superseded(reader, &self.path, self.file_id) {
+                            // It may have been written to until then.
+                            superseded = true;
+                            continue;
                         } else {
                             return Ok(0);
                         }
-- 
2.43.0


From bf610db6ea57caf1af92ff3fd335dd00fb162f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 61/70] fix: publish events whose metadata keys are not header
 names

The kafka sink's thread panicked on metadata keys that are not UTF-8 or
contain a NUL, which the avro source takes from clients as they are.
---
 src/sink/kafka.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..361eb33 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -157,7 +157,16 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                // Clients name their metadata in bytes, which need not be
+                // the text without NULs that a header's name has to be.
+                headers = match str::from_utf8(&k) {
+                    Ok(name) if !name.contains('\0') => headers.clone().add(name, &v),
+                    _ => {
+                        let name =
+                            String::from_utf8_lossy(&k).replace('\0', "\u{FFFD}");
+                        headers.clone().add(&name, &v)
+                    }
+                };
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From daade450947144a04b1413ef16d8e0d8b97bedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 62/70] fix: report the length of elasticsearch's buffer as the
 gauge it is

Its last value is what is kept, as with the other gauges; summing reports
of it means nothing.
---
 src/source/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/internal.rs b/src/source/internal.rs
index 9a8ed7c..3743dca 100644
--- a/src/source/internal.rs
+++ b/src/source/internal.rs
@@ -194,7 +194,7 @@ impl source::Source<InternalConfig> for Internal {
                             sink::elasticsearch::ELASTIC_RECORDS_DELIVERY,
                             chans
                         );
-                        atom_telem!(
+                        atom_set_telem!(
                             "cernan.sinks.elasticsearch.internal.buffer_len",
                             sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN,
                             chans
-- 
2.43.0


From 058a3d08f576945a52f42c3f728208bbded750d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 63/70] fix: count every sample prometheus purges

Ten flushes fall into the second between two reports, and each replaced
the count of the one before.
---
 src/sink/prometheus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index a395df3..eb8910f 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -700,7 +700,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn flush(&mut self) {
         let total_purged = self.aggrs.lock().unwrap().purge();
-        PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
+        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);
     }
 
     fn deliver(&mut self, telem: Telemetry) {
-- 
2.43.0


From f0adff1e29b479d70b098e296d56536ae5202277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 64/70] fix: name file sources by their table

Sources of one path shared a name in the topology. A sink that only the
first of them forwards to never heard of the shutdown, so cernan never
exited.
---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 235a549..1356411 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -820,12 +820,12 @@ fn parse_config_file(buffer: &str) -> Args {
 
         args.files = sources.get("files").map(|src| {
             let mut files = Vec::new();
-            for tbl in src.as_table().unwrap().values() {
+            for (name, tbl) in src.as_table().unwrap().iter() {
                 match tbl.get("path") {
                     Some(pth) => {
                         let mut fl = FileServerConfig::default();
                         fl.path = Some(Path::new(pth.as_str().unwrap()).to_path_buf());
-                        fl.config_path = Some(format!("sources.files.{}", pth));
+                        fl.config_path = Some(format!("sources.files.{}", name));
 
                         fl.forwards = tbl
                             .get("forwards")
-- 
2.43.0


From 565ad7fd2cead6118ef35d718520b4b2dcab06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 65/70] fix: start with a filter that nothing forwards to and
 that forwards nowhere

Looking up the neighbours of a component without any panicked.
---
 src/matrix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..1d93e7f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,11 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(map) => map.iter().filter(f).map(|(k, _v)| k.clone()).collect(),
+
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From 542def669243d52169cccfda5f57907224903834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 66/70] fix: stop the flush timer before the sources

---
 src/bin/cernan.rs   | 11 +++++++++--
 src/source/flush.rs | 11 ++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index cc47e86..7a18dd9 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -792,8 +792,11 @@ fn main() {
 
     drop(flush_sends);
     drop(senders);
-    cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
-        .run();
+    let flush_timer = cernan::source::FlushTimer::new(
+        flush_channels,
+        cernan::source::FlushTimerConfig,
+    )
+    .run();
 
     cernan::thread::spawn(move |_poll| {
         cernan::time::update_time();
@@ -805,6 +808,10 @@ fn main() {
 
     signal.recv().unwrap();
 
+    // Pulses must not fill the queue of a consumer that has already ended, lest
+    // a producer waits for room in it.
+    flush_timer.shutdown();
+
     // Shut down source to quiesce event generation.
     // During shutdown sources will propgate metric::Event::Shutdown
     // to all of its downstream consumers.
diff --git a/src/source/flush.rs b/src/source/flush.rs
index bc41fec..3a2b1d8 100644
--- a/src/source/flush.rs
+++ b/src/source/flush.rs
@@ -3,7 +3,6 @@ use crate::source;
 use crate::util;
 use crate::util::send;
 use mio;
-use std::thread::sleep;
 use std::time::Duration;
 
 /// The source of all flush pulses.
@@ -28,7 +27,7 @@ impl source::Source<FlushTimerConfig> for FlushTimer {
         FlushTimer {}
     }
 
-    fn run(self, mut chans: util::Channel, _poller: mio::Poll) {
+    fn run(self, mut chans: util::Channel, poller: mio::Poll) {
         let flush_duration = Duration::from_millis(1000 / flushes_per_second());
         // idx will _always_ increase. If it's kept at u64 or greater it will
         // overflow long past the collapse of our industrial civilization even
@@ -37,12 +36,18 @@ impl source::Source<FlushTimerConfig> for FlushTimer {
         // Point being, there's a theoretical overflow problem here but it's not
         // going to be hit in practice.
         let mut idx: u64 = 0;
+        let mut events = mio::Events::with_capacity(8);
         loop {
             // We start with TimerFlush(1) as receivers start with
             // TimerFlush(0). This will update their last_flush_idx seen at
             // system boot.
             idx += 1;
-            sleep(flush_duration);
+            // The only event that this thread polls for is its own shutdown.
+            match poller.poll(&mut events, Some(flush_duration)) {
+                Ok(num_events) if num_events > 0 => return,
+                Ok(_) => {}
+                Err(_) => error!("Failed to poll for system events"),
+            }
             send(&mut chans, metric::Event::TimerFlush(idx));
         }
     }
-- 
2.43.0


From 97c7199b745dcb1f4281746d6a8f7a6afa108675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 67/70] fix: go on listening when descriptors have run out

---
 src/source/avro.rs        |  6 +++---
 src/source/native.rs      |  8 +++-----
 src/source/nonblocking.rs |  5 +++++
 src/source/tcp.rs         | 25 +++++++++++++++++++++----
 src/thread.rs             | 34 ++++++++++++++++++++++++++--------
 5 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index dcc0f77..ed9d711 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -247,7 +247,7 @@ impl TCPStreamHandler for AvroStreamHandler {
     ) {
         let connection_id = Uuid::new_v4();
         let mut streaming = true;
-        let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
+        let mut reader = BufferedPayload::new(stream, 1_048_576);
         while streaming {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
@@ -293,7 +293,7 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                         "Failed to write response id!",
                                                     );
                                                 if let Err(e) = write_all(
-                                                    &stream,
+                                                    reader.stream(),
                                                     resp.get_ref(),
                                                 ) {
                                                     error!(
@@ -346,7 +346,7 @@ impl TCPStreamHandler for AvroStreamHandler {
         // On some systems shutting down an already closed connection (client or
         // otherwise) results in an Err.  See -
         // https://doc.rust-lang.org/beta/std/net/struct.TcpStream.html#platform-specific-behavior
-        let _shutdown_result = stream.shutdown(net::Shutdown::Both);
+        let _shutdown_result = reader.stream().shutdown(net::Shutdown::Both);
     }
 }
 
diff --git a/src/source/native.rs b/src/source/native.rs
index 8cf7be8..5ec1946 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -68,10 +68,8 @@ impl TCPStreamHandler for NativeStreamHandler {
         stream: mio::net::TcpStream,
     ) {
         let mut streaming = true;
-        let mut reader = BufferedPayload::new(
-            stream.try_clone().unwrap(),
-            constants::MAX_NATIVE_PAYLOAD,
-        );
+        let mut reader =
+            BufferedPayload::new(stream, constants::MAX_NATIVE_PAYLOAD);
         while streaming {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
@@ -129,7 +127,7 @@ impl TCPStreamHandler for NativeStreamHandler {
         // On some systems shutting down an already closed connection (client or
         // otherwise) results in an Err.  See -
         // https://doc.rust-lang.org/beta/std/net/struct.TcpStream.html#platform-specific-behavior
-        let _shutdown_result = stream.shutdown(net::Shutdown::Both);
+        let _shutdown_result = reader.stream().shutdown(net::Shutdown::Both);
     } // handle_stream
 }
 
diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index f89f526..d851254 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -105,6 +105,11 @@ impl BufferedPayload {
         }
     }
 
+    /// The stream that payloads are read from.
+    pub fn stream(&self) -> &mio::net::TcpStream {
+        self.buffer.get_ref()
+    }
+
     /// Reads existing buffer from the underlying data
     /// stream.  If enough data is present, a single payload
     /// is constructed and returned.
diff --git a/src/source/tcp.rs b/src/source/tcp.rs
index d6eb9ec..0501670 100644
--- a/src/source/tcp.rs
+++ b/src/source/tcp.rs
@@ -9,6 +9,7 @@ use std;
 use std::io::ErrorKind;
 use std::marker::PhantomData;
 use std::net::ToSocketAddrs;
+use std::time::Duration;
 
 /// Configured for the `metric::Telemetry` source.
 #[derive(Debug, Deserialize, Clone)]
@@ -165,8 +166,21 @@ where
                                 {
                                     let listener = &self.listeners[listener_token];
                                     error!("Failed to spawn stream handlers! {:?}", e);
-                                    error!("Deregistering listener for {:?} due to unrecoverable error!", *listener);
-                                    let _ = poll.deregister(listener);
+                                    // We may have run out of file descriptors or
+                                    // threads. Connections wait in the backlog
+                                    // until there are some again, for which we
+                                    // look when the listener, registered anew,
+                                    // is next reported ready.
+                                    std::thread::sleep(Duration::from_millis(100));
+                                    if let Err(e) = poll.reregister(
+                                        listener,
+                                        listener_token,
+                                        mio::Ready::readable(),
+                                        mio::PollOpt::edge(),
+                                    ) {
+                                        error!("Deregistering listener for {:?} due to unrecoverable error! {:?}", *listener, e);
+                                        let _ = poll.deregister(listener);
+                                    }
                                 }
                             }
                         }
@@ -183,11 +197,14 @@ where
     ) -> Result<(), std::io::Error> {
         let listener = &self.listeners[listener_token];
         loop {
+            // Needed by the handler of a connection. We'd rather learn before we
+            // accept one that it's not to be had.
+            let child_poller = mio::Poll::new()?;
             match listener.accept() {
                 Ok((stream, _addr)) => {
                     // Actually spawn the stream handler
                     let rchans = chans.to_owned();
-                    self.handlers.spawn(move |poller| {
+                    self.handlers.try_spawn(child_poller, move |poller| {
                         // Note - Stream handlers are allowed to crash without
                         // compromising Cernan's ability to gracefully shutdown.
                         poller
@@ -201,7 +218,7 @@ where
 
                         let mut handler = H::new();
                         handler.handle_stream(rchans, &poller, stream);
-                    });
+                    })?;
                 }
                 Err(e) => match e.kind() {
                     ErrorKind::ConnectionAborted
diff --git a/src/thread.rs b/src/thread.rs
index 36711c8..5a64877 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -2,6 +2,7 @@
 use crate::constants;
 use crate::util;
 use mio;
+use std::io;
 use std::option;
 use std::sync;
 use std::thread;
@@ -60,11 +61,18 @@ pub fn spawn<F>(f: F) -> ThreadHandle
 where
     F: Send + 'static + FnOnce(mio::Poll) -> (),
 {
-    let child_poller = mio::Poll::new().unwrap();
+    spawn_with(mio::Poll::new().unwrap(), f).expect("Failed to spawn thread!")
+}
+
+/// Spawns a new thread that polls with `child_poller`.
+fn spawn_with<F>(child_poller: mio::Poll, f: F) -> io::Result<ThreadHandle>
+where
+    F: Send + 'static + FnOnce(mio::Poll) -> (),
+{
     let (shutdown_event_registration, shutdown_event) = mio::Registration::new2();
-    ThreadHandle {
+    Ok(ThreadHandle {
         shutdown_event: shutdown_event,
-        handle: thread::spawn(move || {
+        handle: thread::Builder::new().spawn(move || {
             child_poller
                 .register(
                     &shutdown_event_registration,
@@ -75,8 +83,8 @@ where
                 .expect("Failed to register system pipe");
 
             f(child_poller);
-        }),
-    }
+        })?,
+    })
 }
 
 /// mio Eventable ThreadPool.
@@ -124,6 +132,16 @@ impl ThreadPool {
 
     /// Spawn a new thread and assign it to the pool.
     pub fn spawn<F>(&mut self, f: F) -> usize
+    where
+        F: Send + 'static + FnOnce(mio::Poll) -> (),
+    {
+        self.try_spawn(mio::Poll::new().unwrap(), f)
+            .expect("Failed to spawn thread!")
+    }
+
+    /// Spawn a new thread that polls with `child_poller` and assign it to the
+    /// pool. Fails if there is no room for another thread.
+    pub fn try_spawn<F>(&mut self, child_poller: mio::Poll, f: F) -> io::Result<usize>
     where
         F: Send + 'static + FnOnce(mio::Poll) -> (),
     {
@@ -133,12 +151,12 @@ impl ThreadPool {
             joinable: self.joinable.clone(),
             readiness: self.thread_event_readiness.clone(),
         };
-        let handler = spawn(move |poller| {
+        let handler = spawn_with(child_poller, move |poller| {
             let _finished = finished;
             f(poller);
-        });
+        })?;
         self.threads.insert(id, handler);
-        id
+        Ok(id)
     }
 
     fn next_thread_id(&mut self) -> usize {
-- 
2.43.0


From f3e53efc078999f6f4b385441f5a1698737776fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 68/70] fix: end stream handlers whose client sends without a
 pause

A handler saw its shutdown only when the client paused, so a stop request did
not end cernan while one kept sending, sent a graphite line without an end, or
did not read its acknowledgements. The line is now bounded, too, by 1 MiB.
---
 src/source/avro.rs        |  6 ++++++
 src/source/graphite.rs    | 23 +++++++++++++++++++++++
 src/source/native.rs      |  5 +++++
 src/source/nonblocking.rs | 16 +++++++++++++---
 src/source/tcp.rs         | 14 ++++++++++++++
 5 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index ed9d711..5f0fcea 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -2,6 +2,7 @@ use crate::constants;
 use crate::metric;
 use crate::metric::Metadata;
 use crate::source::nonblocking::{write_all, BufferedPayload, PayloadErr};
+use crate::source::tcp::shutting_down;
 use crate::source::{TCPStreamHandler, TCP};
 use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -261,6 +262,10 @@ impl TCPStreamHandler for AvroStreamHandler {
                             }
                             _stream_token => {
                                 while streaming {
+                                    if shutting_down(poller) {
+                                        streaming = false;
+                                        break;
+                                    }
                                     match reader.read() {
                                         Ok(payload) => {
                                             let handle_res = self.handle_avro_payload(
@@ -295,6 +300,7 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                 if let Err(e) = write_all(
                                                     reader.stream(),
                                                     resp.get_ref(),
+                                                    || shutting_down(poller),
                                                 ) {
                                                     error!(
                                                         "Failed to ack {:?}: {:?}",
diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 0832839..6b38ff0 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -1,6 +1,7 @@
 use crate::constants;
 use crate::metric;
 use crate::protocols::graphite::parse_graphite;
+use crate::source::tcp::shutting_down;
 use crate::source::{TCPConfig, TCPStreamHandler, TCP};
 use crate::util;
 use crate::util::send;
@@ -52,6 +53,12 @@ impl From<GraphiteConfig> for TCPConfig {
     }
 }
 
+/// Most that is read of a line at a time.
+const LINE_PIECE: u64 = 65_536;
+
+/// A connection whose line is longer than this is closed.
+const MAX_LINE: usize = 1_048_576;
+
 #[derive(Default, Debug, Clone, Deserialize)]
 pub struct GraphiteStreamHandler;
 
@@ -76,11 +83,18 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                         match event.token() {
                             constants::SYSTEM => return,
                             _stream_token => {
+                                let mut reads: usize = 0;
                                 loop {
+                                    reads += 1;
+                                    if reads % 64 == 0 && shutting_down(poller) {
+                                        return;
+                                    }
                                     // A line is kept in the buffer until all
                                     // of it has arrived. The last line of a
                                     // connection may lack its newline.
                                     let eof = match line_reader
+                                        .by_ref()
+                                        .take(LINE_PIECE)
                                         .read_until(b'\n', &mut line)
                                     {
                                         Ok(len) => len == 0,
@@ -94,6 +108,15 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                                             return;
                                         }
                                     };
+                                    if !eof && line.last() != Some(&b'\n') {
+                                        if line.len() > MAX_LINE {
+                                            GRAPHITE_BAD_PACKET
+                                                .fetch_add(1, Ordering::Relaxed);
+                                            error!("line too long, closing");
+                                            return;
+                                        }
+                                        continue;
+                                    }
                                     if !line.is_empty() {
                                         let good = match str::from_utf8(&line) {
                                             Ok(src) => parse_graphite(
diff --git a/src/source/native.rs b/src/source/native.rs
index 5ec1946..2cdb1e5 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -1,6 +1,7 @@
 use crate::constants;
 use crate::metric;
 use crate::protocols::native::{AggregationMethod, Payload};
+use crate::source::tcp::shutting_down;
 use crate::source::{BufferedPayload, PayloadErr, TCPConfig, TCPStreamHandler, TCP};
 use crate::util;
 use mio;
@@ -83,6 +84,10 @@ impl TCPStreamHandler for NativeStreamHandler {
                             }
                             _stream_token => {
                                 while streaming {
+                                    if shutting_down(poller) {
+                                        streaming = false;
+                                        break;
+                                    }
                                     match reader.read() {
                                         Ok(mut raw) => {
                                             let handle_res = self
diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index d851254..11bc01d 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -3,12 +3,15 @@
 use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
-use std::{io, mem};
+use std::{io, mem, thread, time};
 
 /// Like `std::net::TcpStream::write_all`, except it handles `WouldBlock` too.
-pub fn write_all(
+///
+/// Fails as soon as `give_up` says so while the stream would block.
+pub fn write_all<F: Fn() -> bool>(
     mut stream: &mio::net::TcpStream,
     bytes: &[u8],
+    give_up: F,
 ) -> Result<(), io::Error> {
     let mut written = 0;
 
@@ -19,7 +22,14 @@ pub fn write_all(
             }
 
             Err(e) => match e.kind() {
-                io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted => {
+                io::ErrorKind::WouldBlock => {
+                    if give_up() {
+                        return Err(io::ErrorKind::Interrupted.into());
+                    }
+                    thread::sleep(time::Duration::from_millis(1));
+                }
+
+                io::ErrorKind::Interrupted => {
                     continue;
                 }
 
diff --git a/src/source/tcp.rs b/src/source/tcp.rs
index 0501670..e6e2062 100644
--- a/src/source/tcp.rs
+++ b/src/source/tcp.rs
@@ -52,6 +52,20 @@ pub trait TCPStreamHandler: 'static + Default + Clone + Sync + Send {
     ) -> ();
 }
 
+/// Whether the thread that polls with `poller` is to shut down.
+///
+/// Stream handlers ask between two reads: a client may send without a pause,
+/// and then they never get back to their own poll. A readiness of the stream
+/// that is dropped here does not matter to them, as they read until they would
+/// block anyway.
+pub fn shutting_down(poller: &mio::Poll) -> bool {
+    let mut events = mio::Events::with_capacity(8);
+    match poller.poll(&mut events, Some(Duration::from_millis(0))) {
+        Ok(_) => events.iter().any(|ev| ev.token() == constants::SYSTEM),
+        Err(_) => false,
+    }
+}
+
 /// State for a TCP backed source.
 pub struct TCP<H> {
     listeners: util::TokenSlab<mio::net::TcpListener>,
-- 
2.43.0


From 432c0f732d44affd19981c2b5d09d1057e666ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 69/70] fix: count the sets the wavefront sink emits as sets

They were counted as sums, so cernan.sinks.wavefront.aggregation.set
was never reported.
---
 src/sink/wavefront.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 651e1ac..91e76a4 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -429,9 +429,12 @@ impl Wavefront {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
                         }
-                        AggregationMethod::Sum | AggregationMethod::Set => {
+                        AggregationMethod::Sum => {
                             WAVEFRONT_AGGR_SUM.fetch_add(1, Ordering::Relaxed)
                         }
+                        AggregationMethod::Set => {
+                            WAVEFRONT_AGGR_SET.fetch_add(1, Ordering::Relaxed)
+                        }
                         AggregationMethod::Summarize => {
                             WAVEFRONT_AGGR_SUMMARIZE.fetch_add(1, Ordering::Relaxed);
                             WAVEFRONT_AGGR_TOT_PERCENT
-- 
2.43.0


From a6f25a9b0a10eb44b73fc5aed1f08c73ab0a3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 70/70] fix: round fractional flush intervals to pulses

---
 src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 1356411..09a4a13 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -154,7 +154,9 @@ impl Default for Args {
 fn parse_flush_interval(table: &toml::Value, key: &str) -> Option<u64> {
     match table.get(key) {
         Some(value) => match value {
-            toml::Value::Float(f) => Some((f * flushes_per_second() as f64) as u64),
+            toml::Value::Float(f) => {
+                Some((f * flushes_per_second() as f64).round() as u64)
+            }
             toml::Value::Integer(i) => Some(*i as u64 * flushes_per_second()),
             _ => panic!(
                 "Expected number of seconds for flush_interval config parameter."
-- 
2.43.0

