From 9bf834f45effd3dcbe66ca0c1f23af454dda4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 01/15] fix: Request::params returns the params, not the
 method, of a custom request

---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..cb45ab1 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 7b78e633e13f6012b8782313517b2f060da97f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 02/15] fix: accept requests and notifications that omit
 params, as the crate itself sends them

---
 bsp-server/src/notification.rs | 10 +---------
 bsp-server/src/request.rs      | 13 +------------
 2 files changed, 2 insertions(+), 21 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..55b87fa 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,7 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                let params = params.unwrap_or(serde_json::Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index cb45ab1..e944d5f 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,7 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                let params = params.unwrap_or(serde_json::Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From 1befbc904c6ccc8d19d3f22d2f5adaa7e977a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 03/15] fix: consume the values of unknown members of requests
 and notifications

---
 bsp-server/src/notification.rs | 6 ++++--
 bsp-server/src/request.rs      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 55b87fa..3886519 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -5,7 +5,7 @@ use bsp_types::{
     TaskStart,
 };
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index e944d5f..e4f78e6 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -7,7 +7,7 @@ use bsp_types::*;
 pub use id::*;
 
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 435bf25261575bd00ef04c27e2c49de6e8d97153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 04/15] fix: transport threads report i/o errors and
 disconnection instead of panicking

---
 bsp-server/src/transporter.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..03aa410 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -5,7 +5,7 @@ use std::thread;
 use crate::Notification;
 
 use super::{IoThreads, Message};
-use crossbeam_channel::{bounded, Receiver, Sender};
+use crossbeam_channel::{bounded, Receiver, SendError, Sender};
 
 pub struct Transporter(pub Sender<Message>, pub Receiver<Message>, pub IoThreads);
 
@@ -31,7 +31,7 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                reader_sender.send(msg).map_err(disconnected)?;
 
                 if is_exit {
                     break;
@@ -50,9 +50,9 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    reader_sender.send(msg).map_err(disconnected)?;
                     if is_exit {
                         break;
                     }
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
@@ -79,3 +78,8 @@ impl Transporter {
         Self(writer_sender, reader_receiver, io_threads)
     }
 }
+
+/// The error a reader thread ends with when the connection's receiver is gone.
+fn disconnected(error: SendError<Message>) -> io::Error {
+    io::Error::new(io::ErrorKind::BrokenPipe, error.to_string())
+}
-- 
2.43.0


From 9f7f0d8532d2f0abbb750e5e4833397ea4ebdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 05/15] fix: connect and listen return a failure to set up the
 socket instead of panicking

---
 bsp-server/src/lib.rs         | 4 ++--
 bsp-server/src/transporter.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..375eae6 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -52,7 +52,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -61,7 +61,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 03aa410..372cdb8 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -44,9 +44,9 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(stream: TcpStream) -> io::Result<Self> {
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
+            let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
@@ -63,7 +63,7 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
+            let mut stream = stream.try_clone()?;
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -75,7 +75,7 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
 
-- 
2.43.0


From 59fe7cc63dcbb052fcbdf12d765d212dee0ea17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 06/15] fix: drop notifications other than exit that arrive
 before the initialize request

---
 bsp-server/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 375eae6..af08356 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,12 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .unwrap();
                 }
+                // Drop notifications other than exit
+                Ok(Message::Notification(notification))
+                    if !matches!(notification, Notification::Exit) =>
+                {
+                    tracing::warn!("not initialized, dropping {:?}", notification);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 5407d19b31f2c5320f4dc5fb703ce3b3e2288fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 07/15] fix: initialize returns a ProtocolError when the peer
 is gone instead of panicking

---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index af08356..944a978 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 // Drop notifications other than exit
                 Ok(Message::Notification(notification))
@@ -163,7 +163,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From e1bd9aeacb451edc86d2b5ec252aa8874ecd6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 08/15] fix: use the protocol's method names for task progress
 and inverse sources

---
 bsp-server/src/notification.rs | 4 ++--
 bsp-server/src/request.rs      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 3886519..bf68c6a 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -38,7 +38,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -249,7 +249,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(Box::leak(method.into_boxed_str()), params),
                 })
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index e4f78e6..f2efe87 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -63,7 +63,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -439,7 +439,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From a41d98f73362191a844a5df5b0d5f50a622fd453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/15] fix: keep panic reports off stdout, which carries the
 protocol

---
 bsp-server/src/io_thread.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/io_thread.rs b/bsp-server/src/io_thread.rs
index 914ed1e..49fb327 100644
--- a/bsp-server/src/io_thread.rs
+++ b/bsp-server/src/io_thread.rs
@@ -18,14 +18,14 @@ impl IoThreads {
         match self.reader.join() {
             Ok(r) => r?,
             Err(err) => {
-                println!("reader panicked!");
+                eprintln!("reader panicked!");
                 std::panic::panic_any(err)
             }
         }
         match self.writer.join() {
             Ok(r) => r,
             Err(err) => {
-                println!("writer panicked!");
+                eprintln!("writer panicked!");
                 std::panic::panic_any(err);
             }
         }
-- 
2.43.0


From c0cda0f2584570de65bb20d681af0a9616053915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 10/15] fix: task timestamps and counters are 64-bit, a
 millisecond timestamp overflows u32

---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 6 +++---
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..f5aba24 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
@@ -20,10 +20,10 @@ pub struct TaskProgress {
     pub message: String,
 
     /// If known, total amount of work units in this task.
-    pub total: Option<u32>,
+    pub total: Option<u64>,
 
     /// If known, completed amount of work units in this task.
-    pub progress: Option<u32>,
+    pub progress: Option<u64>,
 
     /// Name of a work unit. For example, "files" or "tests". May be empty.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From 9e71beedffd1d8dad20727d0598b141bcc74394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 11/15] fix: omit unset optional members instead of sending
 null

---
 bsp-types/src/bt_dependency_modules.rs | 2 ++
 bsp-types/src/publish_diagnostics.rs   | 1 +
 bsp-types/src/task/progress.rs         | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/bsp-types/src/bt_dependency_modules.rs b/bsp-types/src/bt_dependency_modules.rs
index a4e5d3b..878ddb0 100644
--- a/bsp-types/src/bt_dependency_modules.rs
+++ b/bsp-types/src/bt_dependency_modules.rs
@@ -90,10 +90,12 @@ pub struct DependencyModule {
     version: String,
 
     /// Kind of data to expect in the `data` field. If this field is not set, the kind of data is not specified.
+    #[serde(skip_serializing_if = "Option::is_none")]
     data_kind: Option<String>,
 
     /// Language-specific metadata about this module.
     ///    * See <https://github.com/build-server-protocol/build-server-protocol/blob/master/bsp4j/src/main/java/ch/epfl/scala/bsp4j/MavenExtension.xtend>
+    #[serde(skip_serializing_if = "Option::is_none")]
     data: Option<Value>,
 }
 
diff --git a/bsp-types/src/publish_diagnostics.rs b/bsp-types/src/publish_diagnostics.rs
index 839bdcc..1d33945 100644
--- a/bsp-types/src/publish_diagnostics.rs
+++ b/bsp-types/src/publish_diagnostics.rs
@@ -16,6 +16,7 @@ pub struct PublishDiagnostics {
     build_target: BuildTargetIdentifier,
 
     /** The request id that originated this notification. */
+    #[serde(skip_serializing_if = "Option::is_none")]
     origin_id: Option<String>,
 
     /** The diagnostics to be published by the client. */
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index f5aba24..f6ae4d5 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -20,9 +20,11 @@ pub struct TaskProgress {
     pub message: String,
 
     /// If known, total amount of work units in this task.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub total: Option<u64>,
 
     /// If known, completed amount of work units in this task.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub progress: Option<u64>,
 
     /// Name of a work unit. For example, "files" or "tests". May be empty.
-- 
2.43.0


From 55f965ae41f89ce7d03439a649fd26d958cea65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 12/15] fix: unimplemented build server methods return an error
 instead of panicking

---
 bsp-types/src/server.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bsp-types/src/server.rs b/bsp-types/src/server.rs
index d02839a..fac24ee 100644
--- a/bsp-types/src/server.rs
+++ b/bsp-types/src/server.rs
@@ -1,6 +1,6 @@
 #![allow(unused_variables)]
 use super::*;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use serde_json::Value;
 
 pub trait BuildServer {
@@ -79,8 +79,7 @@ pub trait BuildServer {
         &self,
         params: BuildTargetDependencyModules,
     ) -> Result<BuildTargetDependencyModulesResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/dependencyModules"
@@ -89,8 +88,7 @@ pub trait BuildServer {
     /// launches a Microsoft DAP server and returns a connection URI for the client to interact with.
     // #[rpc(name = "debugSession/start")]
     fn debug_session_start(&self, params: DebugSessionStart) -> Result<DebugSessionStartResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/sources"
@@ -148,8 +146,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/run")]
     fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/compile"
@@ -158,8 +155,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/compile")]
     fn bt_compile(&self, params: BuildTargetCompile) -> Result<BuildTargetCompileResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/test"
@@ -169,8 +165,7 @@ pub trait BuildServer {
     /// supported or not.
     // #[rpc(name = "buildTarget/test")]
     fn bt_test(&self, params: BuildTargetTest) -> Result<BuildTargetTestResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/cleanCache"
@@ -185,7 +180,6 @@ pub trait BuildServer {
     /// results in a full compilation.
     // #[rpc(name = "buildTarget/cleanCache")]
     fn bt_clean_cache(&self, params: BuildTargetCleanCache) -> Result<BuildTargetCleanCacheResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 }
-- 
2.43.0


From a8575a1554a28b3c3a679c163eb961bd0f629dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 13/15] fix: root_path decodes the percent-encoding of the root
 uri

---
 bsp-types/src/initialize_params.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsp-types/src/initialize_params.rs b/bsp-types/src/initialize_params.rs
index f9ae093..07de29b 100644
--- a/bsp-types/src/initialize_params.rs
+++ b/bsp-types/src/initialize_params.rs
@@ -101,7 +101,9 @@ impl InitializeBuild {
 
     /// Get a reference to the bsp initialize build params's root uri.
     pub fn root_path(&self) -> PathBuf {
-        self.root_uri.path().into()
+        self.root_uri
+            .to_file_path()
+            .unwrap_or_else(|_| self.root_uri.path().into())
     }
 
     /// Set the bsp initialize build params's root uri.
-- 
2.43.0


From df9d2e7174267375260f7932ff2451f398ac1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 14/15] fix: a Content-Length that cannot be allocated no
 longer panics or aborts the process

---
 bsp-server/src/message.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..ed01da3 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -84,8 +84,12 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
 
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The size is the peer's claim: grow the buffer with what actually arrives.
+    buf.clear();
+    inp.take(size as u64).read_to_end(&mut buf)?;
+    if buf.len() < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From 7e6036227fb45366498c99af74049e29e5e47e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 15/15] fix: build target tags use the protocol's spelling and
 accept custom tags

---
 bsp-types/src/bt_tag.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..5cde7dc 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +6,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -48,3 +47,34 @@ impl BuildTargetTag {
         Self::Custom(value.into())
     }
 }
+
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag,
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
-- 
2.43.0

