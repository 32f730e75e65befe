From 79653b2b3df7b1bc166b643a96cfb3846fcfc159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 01/14] fix: escape a dot at the very start of the message

---
 src/codec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..6986e61 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
@@ -14,7 +14,8 @@ pub struct ClientCodec {
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-        ClientCodec::default()
+        // The content starts at the beginning of a line.
+        ClientCodec { escape_count: 2 }
     }
 }
 
-- 
2.43.0


From e49eb8b9107a5f852b862b4f446947fd4fee9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/14] fix: escape a dot that follows CR CR LF

---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 6986e61..0b3a80c 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -40,7 +40,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From 6943c508168632bbc04c825f6849d0cfcd18f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 03/14] fix: do not append an empty line to messages that end
 with CRLF

---
 src/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..a6b382e 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,8 +108,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
-            self.inner.write_all(b"\r\n.\r\n").await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
+            // End of data, completing the last line if necessary.
+            codec.encode(&[], &mut self.inner).await?;
             self.inner.flush().await?;
             Ok(())
         }
-- 
2.43.0


From 92806f43449d4310a08a28a5d869f5037ee1ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 04/14] fix: accept reply lines without text (code only)

---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..00f0630 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    // The text of the last line is optional, and so is the space in front of it.
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From cc8d24fbd69679769a212c18229e8f960d4b6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 05/14] fix: do not take the server name in the EHLO reply for
 an extension

---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..11907df 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,7 +143,8 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line carries the name of the server, not a keyword.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
-- 
2.43.0


From b775ebe08fa9b739812498f4c92eb99f950942f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 06/14] fix: recognise EHLO keywords in any letter case

---
 src/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 11907df..f024a9c 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -150,7 +150,9 @@ impl ServerInfo {
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            // Keywords are not case sensitive (RFC 5321, section 2.4).
+            let keyword = split.first().map(|keyword| keyword.to_ascii_uppercase());
+            match keyword.as_deref() {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From 9c69ab5de06bca160b54606815658215f4ef21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 07/14] fix: read all replies to pipelined commands when one is
 refused

---
 src/smtp_client.rs |  4 +---
 src/stream.rs      | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..2d1437d 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -231,9 +231,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.send_command(DataCommand).await?;
             sent_commands += 1;
 
-            for _ in 0..sent_commands {
-                self.stream.read_response().await?;
-            }
+            self.stream.read_responses(sent_commands).await?;
         } else {
             self.stream
                 .command(MailCommand::new(
diff --git a/src/stream.rs b/src/stream.rs
index a6b382e..33d7bad 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -98,6 +98,24 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         Err(std::io::Error::new(std::io::ErrorKind::Other, "incomplete").into())
     }
 
+    /// Reads the responses to a group of pipelined commands.
+    ///
+    /// All of them are read even if the server refuses some of the commands, so that none is
+    /// mistaken for the response to a later command. The first error is returned.
+    pub(crate) async fn read_responses(&mut self, count: usize) -> Result<(), Error> {
+        let mut result = Ok(());
+        for _ in 0..count {
+            match self.read_response().await {
+                Ok(_) => {}
+                Err(error @ (Error::Transient(_) | Error::Permanent(_))) => {
+                    result = result.and(Err(error));
+                }
+                Err(error) => return result.and(Err(error)),
+            }
+        }
+        result
+    }
+
     /// Sends the message content.
     pub(crate) async fn message<T: Read + Unpin>(&mut self, message: T) -> SmtpResult {
         let mut codec = ClientCodec::new();
-- 
2.43.0


From 68d5af7dd0b196208e1661ba74100c241bf5882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 08/14] fix: refuse to go on after an operation was interrupted

---
 src/smtp_client.rs |  8 +++++++-
 src/stream.rs      | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 2d1437d..18a437d 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -149,6 +149,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             return Err(From::from("server does not support STARTTLS"));
         }
 
+        self.stream.check_ready()?;
         self.stream.command(StarttlsCommand).await?;
 
         // Return the stream, so the caller can upgrade it to TLS.
@@ -161,6 +162,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Closes the SMTP transaction if possible.
     pub async fn quit(&mut self) -> Result<(), Error> {
+        self.stream.check_ready()?;
         self.stream.command(QuitCommand).await?;
 
         Ok(())
@@ -168,6 +170,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an AUTH command with the given mechanism, and handles challenge if needed
     pub async fn auth(&mut self, mechanism: Mechanism, credentials: &Credentials) -> SmtpResult {
+        self.stream.check_ready()?;
+
         // TODO
         let mut challenges = 10;
         let mut response = self
@@ -179,7 +183,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             challenges -= 1;
             response = self
                 .stream
-                .command(AuthCommand::new_from_response(
+                .answer(AuthCommand::new_from_response(
                     mechanism,
                     credentials.clone(),
                     &response,
@@ -196,6 +200,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        self.stream.check_ready()?;
+
         // Mail
         let mut mail_options = vec![];
 
diff --git a/src/stream.rs b/src/stream.rs
index 33d7bad..404e96a 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -7,7 +7,7 @@ use crate::codec::ClientCodec;
 use crate::commands::*;
 use crate::error::{Error, SmtpResult};
 use crate::extension::ClientId;
-use crate::response::parse_response;
+use crate::response::{parse_response, Severity};
 
 #[cfg(feature = "runtime-async-std")]
 use async_std::io::{prelude::*, BufReader, Read, ReadExt, Write, WriteExt};
@@ -22,12 +22,31 @@ use tokio::io::{
 pub struct SmtpStream<S: BufRead + Write + Unpin> {
     /// Inner stream.
     inner: S,
+    /// Number of commands which were sent, maybe only in part, and not completed by a response.
+    ///
+    /// An intermediate response asks for more input, so it does not complete its command.
+    unanswered: usize,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Creates new SMTP stream.
     pub fn new(stream: S) -> Self {
-        Self { inner: stream }
+        Self {
+            inner: stream,
+            unanswered: 0,
+        }
+    }
+
+    /// Checks that the server is waiting for a command.
+    ///
+    /// This is not the case if an earlier operation was cancelled or failed halfway: what is sent
+    /// then may be taken for the rest of that operation, and its late responses for responses to
+    /// what is sent.
+    pub(crate) fn check_ready(&self) -> Result<(), Error> {
+        if self.unanswered > 0 {
+            return Err(Error::Client("an earlier operation was interrupted"));
+        }
+        Ok(())
     }
 
     /// Returns inner stream.
@@ -50,10 +69,17 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Sends the given SMTP command to the server without waiting for response.
     pub async fn send_command(&mut self, command: impl Display) -> Result<(), Error> {
+        self.unanswered += 1;
         self.write(command.to_string().as_bytes()).await?;
         Ok(())
     }
 
+    /// Sends the answer to an intermediate response.
+    pub(crate) async fn answer(&mut self, answer: impl Display) -> SmtpResult {
+        self.write(answer.to_string().as_bytes()).await?;
+        self.read_response().await
+    }
+
     /// Writes the given data to the server.
     async fn write(&mut self, string: &[u8]) -> Result<(), Error> {
         self.inner.write_all(string).await?;
@@ -79,6 +105,9 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
+                    if response.code.severity != Severity::PositiveIntermediate {
+                        self.unanswered = self.unanswered.saturating_sub(1);
+                    }
                     if response.is_positive() {
                         return Ok(response);
                     }
-- 
2.43.0


From 52d6340eb7a4f3b9ac8afa0f6c174a4c8b8af164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 09/14] fix: check the severity of responses to DATA, STARTTLS,
 AUTH and the message

---
 src/response.rs    |  9 +++++++++
 src/smtp_client.rs | 17 +++++++++++------
 src/stream.rs      | 29 +++++++++++++++++++----------
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 00f0630..6166558 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -152,6 +152,15 @@ impl Response {
         )
     }
 
+    /// Returns the response if it has the expected severity.
+    pub(crate) fn expect(self, severity: Severity) -> result::Result<Response, Error> {
+        if self.code.severity == severity {
+            Ok(self)
+        } else {
+            Err(Error::Client("Unexpected response code"))
+        }
+    }
+
     /// Tests code equality
     pub fn has_code(&self, code: u16) -> bool {
         self.code.to_string() == code.to_string()
diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 18a437d..5061a26 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -6,6 +6,7 @@ use crate::authentication::{Credentials, Mechanism};
 use crate::commands::*;
 use crate::error::{Error, SmtpResult};
 use crate::extension::{ClientId, Extension, MailBodyParameter, MailParameter, ServerInfo};
+use crate::response::Severity;
 use crate::stream::SmtpStream;
 use crate::SendableEmail;
 
@@ -150,7 +151,10 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         }
 
         self.stream.check_ready()?;
-        self.stream.command(StarttlsCommand).await?;
+        self.stream
+            .command(StarttlsCommand)
+            .await?
+            .expect(Severity::PositiveCompletion)?;
 
         // Return the stream, so the caller can upgrade it to TLS.
         Ok(self.stream.into_inner())
@@ -194,7 +198,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         if challenges == 0 {
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
-            Ok(response)
+            response.expect(Severity::PositiveCompletion)
         }
     }
 
@@ -216,7 +220,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         let pipelining =
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
-        if pipelining {
+        let response = if pipelining {
             self.stream
                 .send_command(MailCommand::new(
                     email.envelope().from().cloned(),
@@ -237,7 +241,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.send_command(DataCommand).await?;
             sent_commands += 1;
 
-            self.stream.read_responses(sent_commands).await?;
+            self.stream.read_responses(sent_commands).await?
         } else {
             self.stream
                 .command(MailCommand::new(
@@ -256,8 +260,9 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             }
 
             // Data
-            self.stream.command(DataCommand).await?;
-        }
+            self.stream.command(DataCommand).await?
+        };
+        response.expect(Severity::PositiveIntermediate)?;
 
         let res = self.stream.message(email.message()).await;
 
diff --git a/src/stream.rs b/src/stream.rs
index 404e96a..42aa1fc 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -131,18 +131,25 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     ///
     /// All of them are read even if the server refuses some of the commands, so that none is
     /// mistaken for the response to a later command. The first error is returned.
-    pub(crate) async fn read_responses(&mut self, count: usize) -> Result<(), Error> {
-        let mut result = Ok(());
+    ///
+    /// Returns the last response if all of them are positive.
+    pub(crate) async fn read_responses(&mut self, count: usize) -> SmtpResult {
+        let mut result = None;
         for _ in 0..count {
-            match self.read_response().await {
-                Ok(_) => {}
-                Err(error @ (Error::Transient(_) | Error::Permanent(_))) => {
-                    result = result.and(Err(error));
-                }
-                Err(error) => return result.and(Err(error)),
+            let response = self.read_response().await;
+            let readable = matches!(
+                response,
+                Ok(_) | Err(Error::Transient(_) | Error::Permanent(_))
+            );
+            result = match result {
+                Some(Err(error)) => Some(Err(error)),
+                _ => Some(response),
+            };
+            if !readable {
+                break;
             }
         }
-        result
+        result.unwrap_or(Err(Error::Client("no command was sent")))
     }
 
     /// Sends the message content.
@@ -166,7 +173,9 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         .await;
         res?;
 
-        self.read_response().await
+        self.read_response()
+            .await?
+            .expect(Severity::PositiveCompletion)
     }
 }
 
-- 
2.43.0


From a3b81dba0ac09c7ab443f9d21f2aeb85e1c77997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 10/14] fix: reset the transaction that a refused message left
 open

---
 src/smtp_client.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 5061a26..8773555 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -99,6 +99,8 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
     client_info: SmtpClient,
     /// Low level client
     stream: SmtpStream<S>,
+    /// Whether the server may still hold a transaction that was not completed.
+    open_transaction: bool,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
@@ -120,6 +122,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             server_info,
             client_info: builder,
             stream,
+            open_transaction: false,
         };
         Ok(transport)
     }
@@ -150,7 +153,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             return Err(From::from("server does not support STARTTLS"));
         }
 
-        self.stream.check_ready()?;
+        self.begin().await?;
         self.stream
             .command(StarttlsCommand)
             .await?
@@ -160,6 +163,16 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         Ok(self.stream.into_inner())
     }
 
+    /// Makes sure that the server waits for a command and holds no transaction.
+    async fn begin(&mut self) -> Result<(), Error> {
+        self.stream.check_ready()?;
+        if self.open_transaction {
+            self.stream.command(RsetCommand).await?;
+            self.open_transaction = false;
+        }
+        Ok(())
+    }
+
     fn supports_feature(&self, keyword: Extension) -> bool {
         self.server_info.supports_feature(keyword)
     }
@@ -174,7 +187,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an AUTH command with the given mechanism, and handles challenge if needed
     pub async fn auth(&mut self, mechanism: Mechanism, credentials: &Credentials) -> SmtpResult {
-        self.stream.check_ready()?;
+        self.begin().await?;
 
         // TODO
         let mut challenges = 10;
@@ -204,7 +217,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
-        self.stream.check_ready()?;
+        self.begin().await?;
 
         // Mail
         let mut mail_options = vec![];
@@ -220,6 +233,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         let pipelining =
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
+        self.open_transaction = true;
         let response = if pipelining {
             self.stream
                 .send_command(MailCommand::new(
@@ -268,6 +282,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         // Message content
         if let Ok(result) = &res {
+            self.open_transaction = false;
+
             // Log the message
             debug!(
                 "status=sent ({})",
-- 
2.43.0


From 266091e738b36f97b6363fbbfccbbf2a61d79d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 11/14] fix: cancel an authentication exchange that cannot be
 continued

---
 src/smtp_client.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 8773555..9dcc042 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -196,23 +196,24 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
             .await?;
 
-        while challenges > 0 && response.has_code(334) {
+        while response.has_code(334) {
+            let answer = if challenges > 0 {
+                AuthCommand::new_from_response(mechanism, credentials.clone(), &response)
+            } else {
+                Err(Error::ResponseParsing("Unexpected number of challenges"))
+            };
             challenges -= 1;
-            response = self
-                .stream
-                .answer(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+            response = match answer {
+                Ok(answer) => self.stream.answer(answer).await?,
+                Err(error) => {
+                    // Cancel the exchange, the server would wait for an answer otherwise.
+                    let _ = self.stream.answer("*\r\n").await;
+                    return Err(error);
+                }
+            };
         }
 
-        if challenges == 0 {
-            Err(Error::ResponseParsing("Unexpected number of challenges"))
-        } else {
-            response.expect(Severity::PositiveCompletion)
-        }
+        response.expect(Severity::PositiveCompletion)
     }
 
     /// Sends an email.
-- 
2.43.0


From a42a79b690afd8f24854ac0fc4663ecaea529c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 12/14] fix: limit the size of pipelined command groups

---
 src/smtp_client.rs | 13 ++++++++++---
 src/stream.rs      | 21 ++++++++++++++++++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 9dcc042..925acd6 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -246,13 +246,20 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
             // Recipient
             for to_address in email.envelope().to() {
-                self.stream
-                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
-                    .await?;
+                let command = RcptCommand::new(to_address.clone(), vec![]).to_string();
+                if self.stream.is_group_full(command.len()) {
+                    self.stream.read_responses(sent_commands).await?;
+                    sent_commands = 0;
+                }
+                self.stream.send_command(command).await?;
                 sent_commands += 1;
             }
 
             // Data
+            if self.stream.is_group_full(DataCommand.to_string().len()) {
+                self.stream.read_responses(sent_commands).await?;
+                sent_commands = 0;
+            }
             self.stream.send_command(DataCommand).await?;
             sent_commands += 1;
 
diff --git a/src/stream.rs b/src/stream.rs
index 42aa1fc..3d2901f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -17,6 +17,12 @@ use tokio::io::{
     AsyncWriteExt, BufReader,
 };
 
+/// Limit for the size of the commands which are sent without waiting for responses.
+///
+/// The server may stop reading while its responses are not read, so more than what the connection
+/// buffers would block both sides ([RFC 2920, section 3.1](https://tools.ietf.org/html/rfc2920#section-3.1)).
+const MAX_GROUP_SIZE: usize = 4096;
+
 /// SMTP stream.
 #[derive(Debug)]
 pub struct SmtpStream<S: BufRead + Write + Unpin> {
@@ -26,6 +32,8 @@ pub struct SmtpStream<S: BufRead + Write + Unpin> {
     ///
     /// An intermediate response asks for more input, so it does not complete its command.
     unanswered: usize,
+    /// Size of these commands.
+    unanswered_size: usize,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpStream<S> {
@@ -34,9 +42,15 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         Self {
             inner: stream,
             unanswered: 0,
+            unanswered_size: 0,
         }
     }
 
+    /// Whether responses have to be read before another command of the given size is sent.
+    pub(crate) fn is_group_full(&self, size: usize) -> bool {
+        self.unanswered > 0 && self.unanswered_size + size > MAX_GROUP_SIZE
+    }
+
     /// Checks that the server is waiting for a command.
     ///
     /// This is not the case if an earlier operation was cancelled or failed halfway: what is sent
@@ -69,8 +83,10 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Sends the given SMTP command to the server without waiting for response.
     pub async fn send_command(&mut self, command: impl Display) -> Result<(), Error> {
+        let command = command.to_string();
         self.unanswered += 1;
-        self.write(command.to_string().as_bytes()).await?;
+        self.unanswered_size += command.len();
+        self.write(command.as_bytes()).await?;
         Ok(())
     }
 
@@ -108,6 +124,9 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
                     if response.code.severity != Severity::PositiveIntermediate {
                         self.unanswered = self.unanswered.saturating_sub(1);
                     }
+                    if self.unanswered == 0 {
+                        self.unanswered_size = 0;
+                    }
                     if response.is_positive() {
                         return Ok(response);
                     }
-- 
2.43.0


From 99737931284e032ba0973fa8abdef93ddd25c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 13/14] fix: reject control characters in the EHLO name

---
 src/smtp_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 925acd6..8fdf383 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -106,13 +106,16 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
 impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
     /// Creates a new SMTP transport and connects.
     pub async fn new(builder: SmtpClient, stream: S) -> Result<Self, Error> {
+        let hello_name = builder.hello_name.to_string();
+        if hello_name.chars().any(char::is_control) {
+            return Err(Error::Client("invalid EHLO name"));
+        }
+
         let mut stream = SmtpStream::new(stream);
         if builder.expect_greeting {
             let _greeting = stream.read_response().await?;
         }
-        let ehlo_response = stream
-            .ehlo(ClientId::new(builder.hello_name.to_string()))
-            .await?;
+        let ehlo_response = stream.ehlo(ClientId::new(hello_name)).await?;
         let server_info = ServerInfo::from_response(&ehlo_response)?;
 
         // Print server information
-- 
2.43.0


From 1b6c9d905be8f587c2a376aaa24655767db77302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 14/14] fix: do not panic in debug builds if reading fails
 within a line (async-std)

---
 src/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 3d2901f..27a7ea2 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -114,10 +114,14 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         let mut buffer = String::with_capacity(100);
 
         loop {
-            let read = reader.read_line(&mut buffer).await?;
+            // Not `read_line`: with debug assertions enabled, the one of async-std panics if
+            // reading fails in the middle of a line.
+            let mut line = Vec::new();
+            let read = reader.read_until(b'\n', &mut line).await?;
             if read == 0 {
                 break;
             }
+            buffer.push_str(&String::from_utf8(line)?);
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
-- 
2.43.0

