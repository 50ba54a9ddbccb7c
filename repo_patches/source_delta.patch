From 2858ca3a20a365f07228b358d644528d5685996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 01/14] fix: accept shutdown, buildTargets and reload requests
 without params

---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..83d4c56 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -429,8 +429,8 @@ impl<'de> Deserialize<'de> for Request {
                     Some(v) => v,
                     None => {
                         if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
+                            && &method != "workspace/buildTargets"
+                            && &method != "workspace/reload"
                         {
                             return Err(DeError::missing_field("params"));
                         }
-- 
2.43.0


From 9e976caf1c98cb7bde919cdb73cb9721a6e2eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 02/14] fix: report the params of a custom request, not its
 method

---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 83d4c56..4336962 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 6bbcb67fc6ec2fc3248d3765caa82f19d3c564e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 03/14] fix: skip the value of unknown members of requests and
 notifications

---
 bsp-server/src/notification.rs | 4 +++-
 bsp-server/src/request.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..4a7a222 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<serde::de::IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 4336962..864932d 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<serde::de::IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From ae5bfc8b3d21d31c04d42e16105bb230d4d1695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 04/14] fix: use the protocol method build/taskProgress

---
 bsp-server/src/notification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 4a7a222..2ca43f7 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -38,7 +38,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -257,7 +257,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(Box::leak(method.into_boxed_str()), params),
                 })
-- 
2.43.0


From e4cb2ddebd219212e9eaca27a8a8cd0f5d6467c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/14] fix: use the protocol method buildTarget/inverseSources

---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 864932d..3c251cf 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -63,7 +63,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -450,7 +450,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From 9a19e33268cc63fd4b17a095658fe1686d1209de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 06/14] fix: encode build target tags as their protocol strings

---
 bsp-types/src/bt_tag.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..89e8651 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +7,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -37,6 +37,37 @@ pub enum BuildTargetTag {
     Custom(String),
 }
 
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag.as_str(),
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
+
 impl Default for BuildTargetTag {
     fn default() -> Self {
         Self::NoIDE
-- 
2.43.0


From 723de4fe6ed416ecd63d56e434ae2e67db3372f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 07/14] fix: drop notifications other than exit before
 initialize

---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..7ebf536 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .unwrap();
                 }
+                // Drop notifications, except for exit
+                Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => {
+                    tracing::error!("expected initialize request, got {:?}", n);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 98972043f24f25f9ca8d8f35a94b7b5d3faeb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 08/14] fix: report a closed connection during initialize
 instead of panicking

---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 7ebf536..aa794f1 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(format!("failed to send response: {}", e)))?;
                 }
                 // Drop notifications, except for exit
                 Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => {
@@ -161,7 +161,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(format!("failed to send initialize response: {}", e)))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 105456c9ed5de3f885abd261396c7cbc72c24d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 09/14] fix: return socket I/O errors from the I/O threads
 instead of panicking

---
 bsp-server/src/transporter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..4ffdd93 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -50,7 +50,7 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     reader_sender.send(msg).unwrap();
                     if is_exit {
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From b84de80944f18f18e4fb117faa02e2128cf4e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/14] fix: end the reader with an error when the receiver is
 gone

---
 bsp-server/src/transporter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 4ffdd93..e704f74 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -31,7 +31,9 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                reader_sender
+                    .send(msg)
+                    .map_err(|e| io::Error::new(io::ErrorKind::BrokenPipe, e))?;
 
                 if is_exit {
                     break;
@@ -52,7 +54,9 @@ impl Transporter {
                 let mut buf_read = io::BufReader::new(stream);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    reader_sender
+                        .send(msg)
+                        .map_err(|e| io::Error::new(io::ErrorKind::BrokenPipe, e))?;
                     if is_exit {
                         break;
                     }
-- 
2.43.0


From 723b8067d73fcc145a0b75ce2491238abcc752d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 11/14] fix: do not allocate a message body before it has
 arrived

---
 bsp-server/src/message.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..f563fa1 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -82,10 +82,11 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     }
 
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-    let mut buf = buf.into_bytes();
-
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The announced size is not trusted with an allocation up front
+    let mut buf = Vec::new();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From b05a43b1c8efe35fb93e585a0641aea6acc64d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 12/14] fix: return the error when a socket cannot be
 duplicated

---
 bsp-server/src/lib.rs         | 4 ++--
 bsp-server/src/transporter.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index aa794f1..a45d510 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -52,7 +52,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -61,7 +61,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index e704f74..6fe2e90 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -46,9 +46,9 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(stream: TcpStream) -> io::Result<Self> {
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
+            let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
@@ -67,7 +67,7 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
+            let mut stream = stream.try_clone()?;
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -79,6 +79,6 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
-- 
2.43.0


From 2288664a1d26acc9d6b08837c3e2f6828e99d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 13/14] fix: leave absent optional members out of dependency
 modules, diagnostics and task progress

---
 bsp-types/src/bt_dependency_modules.rs | 2 ++
 bsp-types/src/publish_diagnostics.rs   | 1 +
 bsp-types/src/task/progress.rs         | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/bsp-types/src/bt_dependency_modules.rs b/bsp-types/src/bt_dependency_modules.rs
index a4e5d3b..878ddb0 100644
--- a/bsp-types/src/bt_dependency_modules.rs
+++ b/bsp-types/src/bt_dependency_modules.rs
@@ -90,10 +90,12 @@ pub struct DependencyModule {
     version: String,
 
     /// Kind of data to expect in the `data` field. If this field is not set, the kind of data is not specified.
+    #[serde(skip_serializing_if = "Option::is_none")]
     data_kind: Option<String>,
 
     /// Language-specific metadata about this module.
     ///    * See <https://github.com/build-server-protocol/build-server-protocol/blob/master/bsp4j/src/main/java/ch/epfl/scala/bsp4j/MavenExtension.xtend>
+    #[serde(skip_serializing_if = "Option::is_none")]
     data: Option<Value>,
 }
 
diff --git a/bsp-types/src/publish_diagnostics.rs b/bsp-types/src/publish_diagnostics.rs
index 839bdcc..1d33945 100644
--- a/bsp-types/src/publish_diagnostics.rs
+++ b/bsp-types/src/publish_diagnostics.rs
@@ -16,6 +16,7 @@ pub struct PublishDiagnostics {
     build_target: BuildTargetIdentifier,
 
     /** The request id that originated this notification. */
+    #[serde(skip_serializing_if = "Option::is_none")]
     origin_id: Option<String>,
 
     /** The diagnostics to be published by the client. */
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..6e15439 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -20,9 +20,11 @@ pub struct TaskProgress {
     pub message: String,
 
     /// If known, total amount of work units in this task.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub total: Option<u32>,
 
     /// If known, completed amount of work units in this task.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub progress: Option<u32>,
 
     /// Name of a work unit. For example, "files" or "tests". May be empty.
-- 
2.43.0


From bcc16a986d6da74ff1aac47381ca444f68b6dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:42 +0000
Subject: [PATCH 14/14] fix: a server method left out returns an error instead
 of panicking

---
 bsp-types/src/server.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bsp-types/src/server.rs b/bsp-types/src/server.rs
index d02839a..23375a1 100644
--- a/bsp-types/src/server.rs
+++ b/bsp-types/src/server.rs
@@ -1,6 +1,6 @@
 #![allow(unused_variables)]
 use super::*;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use serde_json::Value;
 
 pub trait BuildServer {
@@ -79,8 +79,7 @@ pub trait BuildServer {
         &self,
         params: BuildTargetDependencyModules,
     ) -> Result<BuildTargetDependencyModulesResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: buildTarget/dependencyModules"))
     }
 
     /// Invoked when client sends server "buildTarget/dependencyModules"
@@ -89,8 +88,7 @@ pub trait BuildServer {
     /// launches a Microsoft DAP server and returns a connection URI for the client to interact with.
     // #[rpc(name = "debugSession/start")]
     fn debug_session_start(&self, params: DebugSessionStart) -> Result<DebugSessionStartResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: debugSession/start"))
     }
 
     /// Invoked when client sends server "buildTarget/sources"
@@ -148,8 +146,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/run")]
     fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: buildTarget/run"))
     }
 
     /// Invoked when client sends server "buildTarget/compile"
@@ -158,8 +155,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/compile")]
     fn bt_compile(&self, params: BuildTargetCompile) -> Result<BuildTargetCompileResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: buildTarget/compile"))
     }
 
     /// Invoked when client sends server "buildTarget/test"
@@ -169,8 +165,7 @@ pub trait BuildServer {
     /// supported or not.
     // #[rpc(name = "buildTarget/test")]
     fn bt_test(&self, params: BuildTargetTest) -> Result<BuildTargetTestResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: buildTarget/test"))
     }
 
     /// Invoked when client sends server "buildTarget/cleanCache"
@@ -185,7 +180,6 @@ pub trait BuildServer {
     /// results in a full compilation.
     // #[rpc(name = "buildTarget/cleanCache")]
     fn bt_clean_cache(&self, params: BuildTargetCleanCache) -> Result<BuildTargetCleanCacheResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found: buildTarget/cleanCache"))
     }
 }
-- 
2.43.0

