From a8f23b657ad06da25daac158dee9cd5cf59e22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 01/18] fix: report the bytes read to the caller in
 AsyncReader::poll_read

File bodies were always sent empty: the filled cursor of the buffer was
never advanced, so the copy loop saw end of file at once.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 714c045f0357bb9b47f08d4d8f04b1add358f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 02/18] fix: terminate every Set-Cookie line with CRLF

The last Set-Cookie line consumed the blank line that ends the header
section, so a response with cookies ran into its body.
---
 src/responder.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..49a2385 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -501,14 +501,9 @@ impl<'a> Response<'a> {
             .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
         // push cookies
         #[cfg(feature = "cookies")]
-        headers_str.push_str(
-            &self
-                .cookies
-                .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
-        );
+        self.cookies
+            .iter()
+            .for_each(|cookie| headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF)));
         headers_str
     }
 }
-- 
2.43.0


From 60cd432697d34fa62a34c3407f2a86d21f5e2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 03/18] fix: answer 400 to a malformed request line or header

A malformed header, a short HTTP version or a path above the root
panicked the connection task and the client got no response.
---
 src/request.rs |  7 ++-----
 src/server.rs  | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..0a11317 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,12 +87,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
-        let (first, ver) = version.split_at(5);
+        let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
             "1.0" => HttpVersion::Http10,
diff --git a/src/server.rs b/src/server.rs
index 7fb9528..f331fd7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,18 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let headers = match Headers::parse(raw_headers) {
+                Some(headers) => headers,
+                None => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
+            let request_line = match RequestLine::parse(raw_request_line) {
+                Some(request_line) => request_line,
+                None => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From c925d312e8890acb422bb8464e6710f15a68a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 04/18] fix: do not panic when reading the request head fails

---
 octane_http/src/http1x/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..5f63ffd 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -24,7 +24,10 @@ where
         let mut buf: [u8; 512] = [0; 512];
 
         loop {
-            let read = instance.raw_request.reader.read(&mut buf).await.unwrap();
+            let read = match instance.raw_request.reader.read(&mut buf).await {
+                Ok(read) => read,
+                Err(_) => return Err(StatusCode::BadRequest),
+            };
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
-- 
2.43.0


From aae49526a806fb4da65f1e71448ae9898d7ecb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 05/18] fix: hand exactly Content-Length bytes of body to the
 handler

Bytes past Content-Length leaked into the body, a body cut short or a bad
Content-Length panicked or was dropped, and the declared length was
allocated up front, so one request could abort the process.
---
 src/request.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 0a11317..48b2d3f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -296,22 +296,23 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
-        let body_len = headers
-            .get("content-length")
-            .and_then(|s| s.parse().ok())
-            .unwrap_or(0);
+        let body_len: usize = match headers.get("content-length") {
+            Some(s) => s.parse().ok()?,
+            None => 0,
+        };
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
+                let missing = (body_len - body_remainder.len()) as u64;
                 body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                reader.take(missing).read_to_end(body_vec).await.ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From de0e3fce03cba8e1a7032b21f9062f1fb8964a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 06/18] fix: skip malformed pairs in a Cookie header instead of
 panicking

---
 src/cookie.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..922b52a 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,9 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From 1d9319461424cd0d0ce086d518ffea403f7b569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 07/18] fix: send_file sets the default headers

A Content-Length left by an earlier send() was kept and contradicted the
file that was sent.
---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index 49a2385..02483a7 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -227,6 +227,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From 12284ff21722741b51f453f28619f9140058d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 08/18] fix: keep accepting after a failed accept

One connection aborted in the backlog ended the listener for good.
---
 src/server_builder.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..c66e7e7 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -36,12 +36,17 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
-                let server = Arc::clone(&server);
-                task!({
-                    exec(stream, server).await;
-                })
-            })?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    println!("WARNING: {}", e);
+                    continue;
+                }
+            };
+            let server = Arc::clone(&server);
+            task!({
+                exec(stream, server).await;
+            });
         }
         Ok(())
     }
@@ -56,7 +61,13 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    println!("WARNING: {}", e);
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -88,7 +99,13 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    println!("WARNING: {}", e);
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0


From 807cae37c7ff4cd6b61908b8716ff6bd7c6f3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 09/18] fix: 0x1f is a control character

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
-- 
2.43.0


From 02c7d1d9a89aa24c7fac74143ba21c6565bc6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 10/18] fix: HTTP/2.0 was written as HTTP/0.2

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From ebdd02b8d6455eef98846af5433545a656082f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 11/18] fix: use the three letter month in Date headers for
 September

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 037c135a39b729a6237eb7be1235b4998dabf909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 12/18] fix: typo in the mime type of bin files

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From 41f182e1c55cc9323320488c1f8efa40454038ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 13/18] fix: write the charset as documented

---
 src/responder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/responder.rs b/src/responder.rs
index 02483a7..93042d1 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -156,7 +156,7 @@ impl<'a> Response<'a> {
         if self.headers.get("Content-Type").is_none() {
             let mut format = String::from("text/html");
             if let Some(charset) = &self.charset {
-                format.push_str(&format!(" ;charset={:?}", charset));
+                format.push_str(&format!("; charset={}", charset));
             }
             self.set("Content-Type", &format);
         }
-- 
2.43.0


From 66aa2a7fa4ae296ed9c52d72337d50f0448a97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 14/18] fix: leave the Date header out when the clock is before
 the epoch

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 0a5534a..b2297fa 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -35,7 +35,7 @@ impl Time {
                     return None;
                 }
             }
-            Err(m) => panic!("Got time error: {}", m),
+            Err(_) => return None,
         };
         Self::time(stamp)
     }
-- 
2.43.0


From 75267fb42d66d0f281030c59cfaaa4b08a346c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 15/18] fix: trailing whitespace is not part of a header value

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 48b2d3f..854af52 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -149,7 +149,7 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
         if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
             return None;
         }
-- 
2.43.0


From d32134cdfdeb370f305a3bcfb1a5c7727766d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 16/18] fix: separate the query string from the path

A request with a query matched no route, and get_query() parsed the path,
so its first key had the path in it and its last value a slash.
---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 854af52..20a6679 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,8 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    /// The query string of the request, without the leading `?`
+    pub query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
@@ -116,6 +120,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -334,14 +339,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 355335c1de170244b2e2eeb554bf589c62b3605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 17/18] fix: decode percent escapes in queries as UTF-8

Each escaped byte was turned into a Latin-1 character.
---
 src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..31682cd 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,39 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
+    let mut ret = Vec::new();
     let mut chars = string.chars();
     let mut peekable = DoublePeek::new(&mut chars);
     while let Some(val) = peekable.next() {
         if val != '%' {
-            ret.push(val);
+            ret.extend_from_slice(val.encode_utf8(&mut [0; 4]).as_bytes());
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let (h1, h2) = (from_hex(c1), from_hex(c2));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From fbda7959f269e27d3064284a4ebf76c4472e7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:10 +0000
Subject: [PATCH 18/18] fix: path! is relative to the crate's own directory, as
 documented

---
 octane_macros/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/octane_macros/src/lib.rs b/octane_macros/src/lib.rs
index 9746a14..96523a1 100644
--- a/octane_macros/src/lib.rs
+++ b/octane_macros/src/lib.rs
@@ -206,11 +206,7 @@ pub fn path(input: TokenStream) -> TokenStream {
         _ => panic!(),
     };
     let str_value: String = value.parse().unwrap();
-    let mut path = std::env::current_dir()
-        .unwrap()
-        .into_os_string()
-        .into_string()
-        .unwrap();
+    let mut path = std::env::var("CARGO_MANIFEST_DIR").unwrap();
     path.push_str(&str_value.replace("\"", ""));
     if !Path::new(&path).exists() {
         panic!("{} -> {}", "This directory or file doesn't exists", path);
-- 
2.43.0

