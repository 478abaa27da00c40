From c6af12b44abe2beeadea543692b36161ede2af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 01/22] fix: stop tracking a key as expiring once it has been
 expired

---
 server/src/storage/hashmap_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..9065556 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,9 +256,10 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
-            match self.storage.remove(key) {
-                _ => Ok(true),
+            if let Some(HashMapContainer { key_index: Some(index), .. }) = self.storage.remove(key) {
+                self.invalidate_key_index(index);
             }
+            Ok(true)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 2dd444d8e8c43e2e46e1f03393dea9564fdeca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 02/22] fix: set_if_not_exists treats an expired entry as
 absent

---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 9065556..c24bfc1 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From ea6ec7a4b97f43e811076395a69fc850c9ee78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 03/22] fix: a lifetime beyond the range of SystemTime is an
 error instead of a panic

---
 server/src/analysis/interpreter.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..1286a56 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -80,6 +80,13 @@ pub enum InterpreterResponse {
     Null,
 }
 
+/// Get the expiration time of something with the given lifetime in seconds
+fn expiration_after(lifetime: u64) -> Result<SystemTime, ServerError> {
+    SystemTime::now().checked_add(Duration::from_secs(lifetime)).ok_or_else(
+        || ServerError::IndexError(format!("A lifetime of {} seconds is too long.", lifetime))
+    )
+}
+
 /// An interpreter backed by some storage 
 pub struct Interpreter<S: Storage + Send> {
     /// The underlying storage to communicate with
@@ -227,7 +234,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_after(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
@@ -240,7 +247,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_after(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
@@ -253,7 +260,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_after(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
@@ -266,7 +273,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(expiration_after(time)?),
         };
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
-- 
2.43.0


From 29af38460452b145f7e628caec85501b62a31489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 04/22] fix: the single threaded server shuts down only when a
 shutdown was executed

---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From aab9bcd2b2d1675bf9e87c4d67b430eec13ce74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 05/22] fix: tokenize queries that end with whitespace or a
 string literal without panicking

---
 server/src/analysis/tokenizer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..1986bea 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -191,7 +188,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
@@ -236,6 +233,9 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From e8d5c5fc7bf21dfa78dba6c4d50739c3fdbb9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 06/22] fix: truncated statements and literals are parse errors
 instead of panics

---
 server/src/analysis/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..1c9c65c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
@@ -433,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -459,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -476,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From a63c9e138bd9c46d2234e2874597451e93499c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 07/22] fix: consume the closing bracket of an empty vector or
 map literal

---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 1c9c65c..769b685 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From b7e2a890994c347db869c663d9da5a6540b0ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 08/22] fix: serialize maps as a list of entries so that
 non-empty maps can be returned

---
 server/src/storage/types.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..1ce1d3f 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -242,6 +242,7 @@ impl StorageVector {
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
@@ -250,6 +251,27 @@ pub struct StorageMap {
 }
 
 
+/// (De)serializes a map as a list of its entries, since formats like JSON only allow string keys.
+mod map_entries {
+    use super::StorageValue;
+    use serde::{Deserialize, Deserializer, Serializer};
+    use std::collections::HashMap;
+
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries = Vec::<(StorageValue, StorageValue)>::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
+
 impl StorageMap {
     /// Create a new map with keys and data of the given types.
     pub fn new(key_type: KeyType, collection_type: CollectionType) -> StorageMap {
-- 
2.43.0


From 4b1fcf8b2dd97830ee277e87dbfee20d54fd9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 09/22] fix: a connection closed before the request is complete
 ends the request

---
 server/src/io/tcp.rs       | 4 ++--
 server/src/io/tcp_async.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..3263ea9 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -116,8 +116,8 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         let mut headers_list = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];
         let mut request = Request::new(&mut headers_list);
         let size_read = match stream.read(&mut temp_buffer) {
-            Ok(read) => read,
-            Err(_) => {
+            Ok(read) if read > 0 => read,
+            _ => {
                 let sender: Option<Box<dyn StreamSender + Send>> = Some(Box::new(TcpStreamSender{stream}));
                 return StreamRequest {
                     request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..84ab952 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -127,8 +127,8 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         let mut headers_list = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];
         let mut request = Request::new(&mut headers_list);
         let size_read = match stream.read(&mut temp_buffer).await {
-            Ok(read) => read,
-            Err(_) => {
+            Ok(read) if read > 0 => read,
+            _ => {
                 let sender = Some(TcpStreamSender{stream});
                 return StreamRequest {
                     request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
-- 
2.43.0


From 68a11bc9f73d54432b67d73a3a5ee3c99181e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 10/22] fix: keep reading when the request head has not arrived
 completely

---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 3263ea9..3aefcc9 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -129,6 +129,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 84ab952..dd97bca 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -140,6 +140,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From aaa5de635cc26ddd9ba776d98ebe733bf04427aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 11/22] fix: do not overflow on huge Content-Length values

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 3aefcc9..2722b2c 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -150,7 +150,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index dd97bca..bb68856 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -161,7 +161,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0


From 8e141674d49506233089a74367c6020c6cc4aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 12/22] fix: the name of the Content-Length header is case
 insensitive

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 2722b2c..42ba5b1 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index bb68856..c7985c0 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From bb55459676848b156e109572af803938bfb154a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 13/22] fix: the name of the Username header is case
 insensitive

---
 server/src/auth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/auth.rs b/server/src/auth.rs
index 9e4cd0e..6518631 100644
--- a/server/src/auth.rs
+++ b/server/src/auth.rs
@@ -42,8 +42,8 @@ pub struct MockAuthenticator;
 
 impl AuthenticationService for MockAuthenticator {
     fn authenticate(&mut self, headers: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> {
-        let username = match headers.get("Username") {
-            Some(username) => username,
+        let username = match headers.iter().find(|(name, _)| name.eq_ignore_ascii_case("Username")) {
+            Some((_, username)) => username,
             None => {
                 return Err(ServerError::InternalError("Authentication service error".to_string()))
             },
-- 
2.43.0


From 302a6c7c43aa65134dc84d001f15d7c8d91fe9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 14/22] fix: write the whole response

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 42ba5b1..b7a8adc 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index c7985c0..57697af 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 20163d7db5136c9fed80a329fe3f3acb12056abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 15/22] fix: keep the case of string literals

---
 server/src/analysis/tokenizer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 1986bea..74a4ff6 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -221,7 +220,7 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        let token_string = char_vec.into_iter().collect::<String>().to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From ce3af6a5caa787b6f9b909effed2399c03fee5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 16/22] fix: float literals out of range are errors

---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 74a4ff6..0a098f7 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -128,8 +128,8 @@ impl Tokenizer {
         let token_string: String = char_vec.into_iter().collect();
         if is_float {
             let value: f32 = match token_string.parse() {
-                Ok(val) => val,
-                Err(_) => {
+                Ok(val) if f32::is_finite(val) => val,
+                _ => {
                     return Err(
                         ServerError::TokenizationError(
                             format!("Expected float literal, got '{}'", token_string)
-- 
2.43.0


From e913566e150dc815346fcd0adf8b46d6f18684f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 17/22] fix: a client that stalls does not block the server for
 ever

---
 server/src/io/tcp.rs       |  9 +++++++--
 server/src/io/tcp_async.rs | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index b7a8adc..93fa446 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -2,6 +2,7 @@ use std::net::{IpAddr, TcpStream, TcpListener};
 use std::collections::HashMap;
 use std::io::{Read, Write};
 use std::iter::Extend;
+use std::time::{Duration, Instant};
 
 use httparse::{self, Request, Status};
 use serde_json::{self, Value};
@@ -13,6 +14,8 @@ use crate::io::stream::{StreamHandler, StreamRequest, StreamSender};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+/// How long a client may take to send its request, and to accept the response
+const CLIENT_TIMEOUT: Duration = Duration::from_secs(10);
 
 
 /// Object to send responses back through a TCP stream object.
@@ -50,7 +53,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write_all(http_bytes) {
+        if let Err(_) = self.stream.set_write_timeout(Some(CLIENT_TIMEOUT)).and_then(|_| self.stream.write_all(http_bytes)) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
@@ -111,11 +114,13 @@ fn convert_headers_to_map(request: &Request) -> HashMap<String, String> {
 fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
     let mut buffer = vec![];
     let mut headers = HashMap::new();
+    let deadline = Instant::now() + CLIENT_TIMEOUT;
     let (headers, body) = loop {
         let mut temp_buffer = [0; MAX_BUFFER_SIZE];
         let mut headers_list = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];
         let mut request = Request::new(&mut headers_list);
-        let size_read = match stream.read(&mut temp_buffer) {
+        let time_left = deadline.saturating_duration_since(Instant::now());
+        let size_read = match stream.set_read_timeout(Some(time_left)).and_then(|_| stream.read(&mut temp_buffer)) {
             Ok(read) if read > 0 => read,
             _ => {
                 let sender: Option<Box<dyn StreamSender + Send>> = Some(Box::new(TcpStreamSender{stream}));
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 57697af..3b2e91a 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -1,9 +1,11 @@
 use std::net::IpAddr;
 use tokio::net::{TcpListener, TcpStream};
 use tokio::io::{AsyncWriteExt, AsyncReadExt};
+use tokio::time::{timeout, timeout_at, Instant};
 
 use std::collections::HashMap;
 use std::iter::Extend;
+use std::time::Duration;
 
 use httparse::{self, Request, Status};
 use serde_json::{self, Value};
@@ -13,6 +15,8 @@ use crate::error::{self, ServerError};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+/// How long a client may take to send its request, and to accept the response
+const CLIENT_TIMEOUT: Duration = Duration::from_secs(10);
 
 
 /// Async version of the stream request
@@ -61,7 +65,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write_all(http_bytes).await {
+        if !matches!(timeout(CLIENT_TIMEOUT, self.stream.write_all(http_bytes)).await, Ok(Ok(()))) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
@@ -122,12 +126,13 @@ fn convert_headers_to_map(request: &Request) -> HashMap<String, String> {
 async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
     let mut buffer = vec![];
     let mut headers = HashMap::new();
+    let deadline = Instant::now() + CLIENT_TIMEOUT;
     let (headers, body) = loop {
         let mut temp_buffer = [0; MAX_BUFFER_SIZE];
         let mut headers_list = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];
         let mut request = Request::new(&mut headers_list);
-        let size_read = match stream.read(&mut temp_buffer).await {
-            Ok(read) if read > 0 => read,
+        let size_read = match timeout_at(deadline, stream.read(&mut temp_buffer)).await {
+            Ok(Ok(read)) if read > 0 => read,
             _ => {
                 let sender = Some(TcpStreamSender{stream});
                 return StreamRequest {
-- 
2.43.0


From c652cadb4aa83154b66a5376992e2f9ec52b8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 18/22] fix: a map type without a literal at the end of a query
 is an empty map instead of a panic

---
 server/src/analysis/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 769b685..00b069c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
-- 
2.43.0


From 2187c23c12bad0493d9c810aca3746837373dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 19/22] fix: the async server stops only after the response to
 the shutdown is sent

---
 server/src/async.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/server/src/async.rs b/server/src/async.rs
index f25cdb2..1dbf4c3 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -31,7 +31,7 @@ fn authenticate(authenticator: Arc<Mutex<MockAuthenticator>>, headers: &HashMap<
 }
 
 
-async fn listen_for_requests(analysis_sender: AnalysisSender) {
+async fn listen_for_requests(analysis_sender: AnalysisSender, shutdown_flag: Arc<Mutex<bool>>) {
     let authenticator = Arc::new(Mutex::new(MockAuthenticator));
     let mut stream_handler = TcpStreamHandler::new(IpAddr::V4(Ipv4Addr::new(127, 0,0,1)), 7878).await;
     loop {
@@ -81,7 +81,17 @@ async fn listen_for_requests(analysis_sender: AnalysisSender) {
 
         }
         let response = job_receiver.recv().await.unwrap();
+        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
+            true
+        } else {
+            false
+        };
         send_response_to_client(sender, response).await;
+        if shutting_down {
+            // Only now, otherwise the server could stop before the response is sent.
+            println!("Received shutdown signal!");
+            reset_flag(&shutdown_flag, true);
+        }
 
 
         println!("Listening for requests");
@@ -157,17 +167,12 @@ fn check_flag(flag: &Arc<Mutex<bool>>) -> bool {
     *flag.lock().unwrap()
 }
 
-async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mutex<bool>>) {
+async fn execute_requests(mut receiver: ExecuteReceiver) {
     let storage = HashMapStorage::new();
     let mut interpreter = Interpreter::new(storage);
     loop {
         let (request, sender) = receiver.recv().await.unwrap();
         let response = interpreter.interpret(request);
-        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
-            true
-        } else {
-            false
-        };
         if let Some(sender) = sender {
             match sender.send(response).await {
                 Ok(_) => (),
@@ -176,10 +181,6 @@ async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mute
                 }
             }
         }
-        if shutting_down {
-            println!("Received shutdown signal!");
-            reset_flag(&shutdown_flag, true);
-        }
     }
 }
 
@@ -200,9 +201,8 @@ async fn serve() {
     let (execute_sender, execute_receiver) = mpsc::channel(CHANNEL_QUEUE_SIZE);
     let (analysis_sender, analysis_receiver) = mpsc::channel(CHANNEL_QUEUE_SIZE);
 
-    let shutdown_copy = Arc::clone(&shutdown_flag);
     tokio::spawn(async move {
-        execute_requests(execute_receiver, shutdown_copy).await;
+        execute_requests(execute_receiver).await;
     });
 
     let execute_sender_analyze = execute_sender.clone();
@@ -212,8 +212,9 @@ async fn serve() {
     tokio::spawn(async move {
         expire_old_keys(execute_sender).await;
     });
+    let shutdown_copy = Arc::clone(&shutdown_flag);
     tokio::spawn(async move {
-        listen_for_requests(analysis_sender).await;
+        listen_for_requests(analysis_sender, shutdown_copy).await;
     });
     let mut count = 0;
     async {
-- 
2.43.0


From c515efc87ea7d8dd04c289013cb6890bf10cf4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 20/22] fix: a listener worker survives a thread that cannot be
 started

---
 server/src/multithreaded/listener.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/src/multithreaded/listener.rs b/server/src/multithreaded/listener.rs
index cfdbaa8..e3c1923 100644
--- a/server/src/multithreaded/listener.rs
+++ b/server/src/multithreaded/listener.rs
@@ -43,7 +43,7 @@ impl<T: StreamHandler + Send + 'static, A: AuthenticationService + Send + 'stati
             }
             let result = {
                 let receive_channel = Arc::clone(&self.receive_channel);
-                let join_handle = thread::spawn(
+                let spawned = thread::Builder::new().spawn(
                     move || -> Option<StreamRequest> {
                         let mut lock = receive_channel.try_lock();
                         let handler = match lock {
@@ -53,6 +53,15 @@ impl<T: StreamHandler + Send + 'static, A: AuthenticationService + Send + 'stati
                         handler.receive_request()
                     }
                 );
+                let join_handle = match spawned {
+                    Ok(join_handle) => join_handle,
+                    Err(err) => {
+                        // The system may be short of threads for a while, the worker must survive that
+                        println!("Error starting receiver thread. {:?}", err);
+                        thread::sleep(Duration::from_millis(1));
+                        continue;
+                    }
+                };
                 loop {
                     // Non async way to make sure we shut down without waiting forever since the listener
                     // doesn't necessarily have any timeouts, ugly but seems to work
-- 
2.43.0


From 3d8365cf76a15f8582b2ebbe058a4f195b35feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 21/22] fix: log output that cannot be written does not make
 threads panic

---
 server/src/async.rs |  1 +
 server/src/lib.rs   | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/server/src/async.rs b/server/src/async.rs
index 1dbf4c3..bc52d3f 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -8,6 +8,7 @@ use tokio::sync::mpsc::{self, Sender, Receiver};
 
 use server::auth::{AuthenticationService, MockAuthenticator, AuthorizationLevel, AuthenticationResult};
 use server::error::ServerError;
+use server::println;
 use server::io::tcp_async::{TcpStreamHandler, StreamRequest, TcpStreamSender};
 use server::storage::hashmap_storage::HashMapStorage;
 use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
diff --git a/server/src/lib.rs b/server/src/lib.rs
index 941ecb3..0103c0b 100644
--- a/server/src/lib.rs
+++ b/server/src/lib.rs
@@ -5,6 +5,16 @@
 //! 
 #![warn(missing_docs)]
 
+/// Prints a line like the standard macro, but output that cannot be written (a full disk,
+/// a closed pipe) is lost instead of making the thread panic.
+#[macro_export]
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
 /// Backend functionality primarily around 
 pub mod storage;
 /// Defines the basic analyzer for simple operations
-- 
2.43.0


From 9772f750a2bb2cf29a7bd85b17398054f4805521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 22/22] fix: a client that takes its response in a trickle does
 not hold a worker longer than the client timeout

---
 server/src/io/tcp.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 93fa446..9697142 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -1,6 +1,6 @@
 use std::net::{IpAddr, TcpStream, TcpListener};
 use std::collections::HashMap;
-use std::io::{Read, Write};
+use std::io::{self, ErrorKind, Read, Write};
 use std::iter::Extend;
 use std::time::{Duration, Instant};
 
@@ -35,6 +35,25 @@ fn make_response(code: &str, json_payload: &str) -> String {
 }
 
 
+/// Write everything, but give up on clients that have not taken it all within CLIENT_TIMEOUT
+fn write_in_time(stream: &mut TcpStream, mut bytes: &[u8]) -> io::Result<()> {
+    let deadline = Instant::now() + CLIENT_TIMEOUT;
+    let mut time_left = CLIENT_TIMEOUT;
+    while !bytes.is_empty() {
+        // There is an error if no time is left
+        stream.set_write_timeout(Some(time_left))?;
+        match stream.write(bytes) {
+            Ok(0) => return Err(ErrorKind::WriteZero.into()),
+            Ok(size) => bytes = &bytes[size..],
+            Err(err) if err.kind() == ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
+        time_left = deadline.saturating_duration_since(Instant::now());
+    }
+    Ok(())
+}
+
+
 impl StreamSender for TcpStreamSender {
     fn send(&mut self, response: Result<InterpreterResponse, ServerError>) -> Result<(), ServerError> {
         let (code, json_payload) = match response {
@@ -53,7 +72,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.set_write_timeout(Some(CLIENT_TIMEOUT)).and_then(|_| self.stream.write_all(http_bytes)) {
+        if let Err(_) = write_in_time(&mut self.stream, http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
-- 
2.43.0

