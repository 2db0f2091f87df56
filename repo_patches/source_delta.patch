From 57d19b3461d8fb4b82780bb9e7de7670d3c0a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 01/38] fix: keep '@' in URL paths and queries, end the
 authority at '?'

---
 src/url/url.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..1783b74 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -172,6 +172,9 @@ impl Url {
                 } else {
                     val.push(b);
                 }
+            } else if b == b'@' && is_first_slash {
+                // '@' only separates the user info inside the authority
+                val.push(b);
             } else if b == b'@' {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
                 if domain.is_none() {
@@ -194,9 +197,14 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    // the authority is directly followed by the query, the path is empty
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
+                    is_first_slash = true;
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From 2a4517711ada6ef7cbb7b4f3e9ad0655c605ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 02/38] fix: compare header names equal only when letters
 differ by case

---
 src/helper.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..67ab020 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -443,11 +443,7 @@ impl Helper {
             return false;
         }
         for i in 0..a.len() {
-            if a[i] == b[i] {
-                continue;
-            }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
+            if !a[i].eq_ignore_ascii_case(&b[i]) {
                 return false;
             }
         }
-- 
2.43.0


From b8d2934b5d085f27a993737f1cb9761e5516fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 03/38] fix: end a header value at LF, take only CR LF or LF as
 a line end

---
 src/helper.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 67ab020..2b6371f 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -258,7 +258,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
@@ -320,9 +319,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From 8c71a2251b4ddf6ef9b83f6a71b39c3a010bf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 04/38] fix: accept a status line with an empty reason phrase

---
 src/helper.rs        | 5 +++--
 src/http/response.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 2b6371f..ae60ac7 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -286,8 +286,9 @@ impl Helper {
     }
 
     #[inline]
-    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+    pub(crate) fn parse_reason<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
+        // the reason phrase may be empty
+        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
diff --git a/src/http/response.rs b/src/http/response.rs
index 99e704c..cc0d106 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -712,7 +712,7 @@ impl<T: Serialize> Response<T> {
         Helper::skip_spaces(buffer)?;
         self.parts.status = Helper::parse_status(buffer)?;
         Helper::skip_spaces(buffer)?;
-        let _reason = Helper::parse_status_token(buffer)?;
+        let _reason = Helper::parse_reason(buffer)?;
         Helper::skip_new_line(buffer)?;
         Helper::parse_header(buffer, &mut self.parts.header)?;
         self.partial = false;
-- 
2.43.0


From 0bbb4abc49e535d7ea6fc39f66c4130d3b355366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 05/38] fix: report an oversized chunk length instead of
 panicking

---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index ae60ac7..2289257 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -391,9 +391,9 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(WebError::from)?;
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        if val.remaining() < 2 || num > val.remaining() - 2 {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From f4b84b6be64db66026107a538699559784ed7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 06/38] fix: escape the delimiters of every URL component when
 it is displayed

---
 src/url/url.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 1783b74..3a3384d 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -279,6 +279,19 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// Percent-encodes a component together with the delimiters that would end it.
+    fn encode_component(val: &str, delimiters: &[u8]) -> String {
+        let mut result = String::with_capacity(val.len());
+        for c in Self::url_encode(val).chars() {
+            if delimiters.contains(&(c as u8)) {
+                result.push_str(&format!("%{:02X}", c as u8));
+            } else {
+                result.push(c);
+            }
+        }
+        result
+    }
+
     pub fn url_decode(val: &str) -> WebResult<String> {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity(bytes.len() as usize);
@@ -354,12 +367,12 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::encode_component(self.username.as_ref().unwrap_or(&String::new()), b":@/?"),
+                Self::encode_component(self.password.as_ref().unwrap_or(&String::new()), b":@/?")
             ))?;
         }
         if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+            f.write_str(&Self::encode_component(self.domain.as_ref().unwrap(), b":@/?"))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -368,7 +381,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_str(&Self::encode_component(&self.path, b"?"))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 478ba940d4a3ac892858e782b48d52f49e3d1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 07/38] fix: send the query and an escaped path in the request
 line

---
 src/http/request.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..cf4765b 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -641,7 +641,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += buffer.put_slice(self.parts.target().as_bytes());
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
@@ -689,6 +689,33 @@ impl Parts {
     pub fn get_connect_url(&self) -> Option<String> {
         self.url.get_connect_url()
     }
+
+    /// The request target: the authority for CONNECT, otherwise path and query,
+    /// with every byte escaped that can't be sent as it is.
+    fn target(&self) -> String {
+        fn escape(target: &mut String, val: &str, is_path: bool) {
+            for b in val.bytes() {
+                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
+                    target.push_str(&format!("%{:02X}", b));
+                } else {
+                    target.push(b as char);
+                }
+            }
+        }
+
+        if self.method == Method::Connect {
+            if let Some(connect) = self.url.get_connect_url() {
+                return connect;
+            }
+        }
+        let mut target = String::with_capacity(self.url.path.len());
+        escape(&mut target, &self.url.path, true);
+        if let Some(query) = &self.url.query {
+            target.push('?');
+            escape(&mut target, query, false);
+        }
+        target
+    }
 }
 
 impl Default for Request<()> {
@@ -708,7 +735,7 @@ where
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         self.parts.method.fmt(f)?;
         f.write_str(" ")?;
-        self.parts.url.path.fmt(f)?;
+        f.write_str(&self.parts.target())?;
         f.write_str(" ")?;
         self.parts.version.fmt(f)?;
         f.write_str("\r\n")?;
-- 
2.43.0


From 7fc161f38492dab9a689897068d0a5c145b5f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 08/38] fix: reject header numbers that overflow or carry a
 misplaced sign

---
 src/http/value.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..a27e695 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -116,12 +116,10 @@ impl TryInto<usize> for &HeaderValue {
                     if !Helper::is_digit(*b) {
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
+                    result = result
+                        .checked_mul(10)
+                        .and_then(|v| v.checked_add((b - Helper::DIGIT_0) as usize))
+                        .ok_or(WebError::IntoError)?;
                 }
                 Ok(result)
             }
@@ -138,20 +136,18 @@ impl TryInto<isize> for &HeaderValue {
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
                 let mut is_neg = false;
-                for b in v {
+                for (i, b) in v.iter().enumerate() {
                     if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
+                        if b == &b'-' && i == 0 {
                             is_neg = true;
                             continue;
                         }
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
+                    result = result
+                        .checked_mul(10)
+                        .and_then(|v| v.checked_add((b - Helper::DIGIT_0) as isize))
+                        .ok_or(WebError::IntoError)?;
                 }
                 if is_neg {
                     Ok(-result)
-- 
2.43.0


From fe6dbf254f7796863b28b940e97fba9319c895c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 09/38] fix: strip the port from :authority when reading the
 host

---
 src/http/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..48fa524 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -185,7 +185,7 @@ impl HeaderMap {
             let value = TryInto::<String>::try_into(value).ok().unwrap();
             // host 信息只取前缀
             if value.contains(":") {
-                let v: Vec<&str> = value.splitn(1, ':').collect();
+                let v: Vec<&str> = value.splitn(2, ':').collect();
                 return Some(v[0].to_string());
             } else {
                 return Some(value);
-- 
2.43.0


From a6a2b9cf0a339eadb282b22ee52d9a23d4850777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 10/38] fix: reject an empty header value as a number

---
 src/http/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/http/value.rs b/src/http/value.rs
index a27e695..46fcc3f 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -111,6 +111,9 @@ impl TryInto<usize> for &HeaderValue {
         match self {
             HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
             HeaderValue::Value(v) => {
+                if v.is_empty() {
+                    return Err(WebError::IntoError);
+                }
                 let mut result = 0usize;
                 for b in v {
                     if !Helper::is_digit(*b) {
@@ -149,6 +152,9 @@ impl TryInto<isize> for &HeaderValue {
                         .and_then(|v| v.checked_add((b - Helper::DIGIT_0) as isize))
                         .ok_or(WebError::IntoError)?;
                 }
+                if v.len() == is_neg as usize {
+                    return Err(WebError::IntoError);
+                }
                 if is_neg {
                     Ok(-result)
                 } else {
-- 
2.43.0


From 50f8db22cf9bade75e3db8ad1b907daa8d36b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 11/38] fix: match connection and coding tokens whole and in
 any case

---
 src/http/header.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 48fa524..478295a 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -10,7 +10,7 @@
 // -----
 // Created Date: 2023/08/14 05:20:35
 
-use crate::{HeaderName, HeaderValue, WebError, WebResult};
+use crate::{HeaderName, HeaderValue, Helper, WebError, WebResult};
 use std::{
     borrow::Borrow,
     collections::HashMap,
@@ -234,7 +234,7 @@ impl HeaderMap {
 
     pub fn is_keep_alive(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            Self::contains_bytes(value.as_bytes(), b"Keep-Alive")
+            Self::contains_token(value.as_bytes(), b"Keep-Alive")
         } else {
             false
         }
@@ -242,7 +242,7 @@ impl HeaderMap {
 
     pub fn is_chunked(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::TRANSFER_ENCODING) {
-            Self::contains_bytes(value.as_bytes(), b"chunked")
+            Self::contains_token(value.as_bytes(), b"chunked")
         } else {
             false
         }
@@ -250,7 +250,7 @@ impl HeaderMap {
 
     pub fn get_upgrade_protocol(&self) -> Option<String> {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            if !Self::contains_bytes(value.as_bytes(), b"Upgrade") {
+            if !Self::contains_token(value.as_bytes(), b"Upgrade") {
                 return None;
             }
         } else {
@@ -296,16 +296,10 @@ impl HeaderMap {
         Ok(size)
     }
 
-    fn contains_bytes(src: &[u8], dst: &[u8]) -> bool {
-        if dst.len() > src.len() {
-            return false;
-        }
-        for i in 0..(src.len() - dst.len() + 1) {
-            if &src[i..(i + dst.len())] == dst {
-                return true;
-            }
-        }
-        false
+    /// Whether a list valued header holds the token, the case doesn't matter.
+    fn contains_token(src: &[u8], token: &[u8]) -> bool {
+        src.split(|b| *b == b',' || *b == b';')
+            .any(|v| Helper::eq_bytes_ignore_ascii_case(v.trim_ascii(), token))
     }
 }
 
-- 
2.43.0


From 9211a46f4bab0d01832299547da4921b396cbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 12/38] fix: spell the static table entry accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From b52fc7d78227d5bad81e077cb3dd12f0d097edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 13/38] fix: reject a huffman string that carries EOS

---
 src/http/http2/hpack/huffman.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..a463653 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -61,6 +61,9 @@ impl HuffmanDecoder {
             }
 
             let key = (current, current_len);
+            if key == (EOS_VALUE, EOS_LEN) {
+                return Err(Http2Error::into(HuffmanDecoderError::EOSInString));
+            }
             if HUFFMAN_CODE_MAP.contains_key(&key) {
                 let val = HUFFMAN_CODE_MAP.get(&key).unwrap();
                 result.push(*val);
-- 
2.43.0


From 5636f849c1f67dbc31a1944f261f6b1943a6c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 14/38] fix: decode header indexes of more than one octet

---
 src/http/http2/hpack/decoder.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..07cdfe4 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,13 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
-        let header = self.index.read().unwrap();
-        let (name, value) = header
-            .get_from_index(index as usize)
-            .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
-        call(name, value);
-        Ok(1)
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
+        self.get_from_table(index, call)?;
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From e628f8c672fe833ddf1a5cf1520b5b16f872b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 15/38] fix: apply dynamic table size updates instead of
 looping on them

---
 src/http/http2/hpack/decoder.rs      |  8 +++++---
 src/http/http2/hpack/header_index.rs | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 07cdfe4..657c5fc 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -163,9 +163,11 @@ impl Decoder {
                     consumed
                 }
                 FieldRepresentation::SizeUpdate => {
-                    // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    let (size, consumed) = Self::decode_integer(buffer_leftover, 5)?;
+                    if !self.index.write().unwrap().update_max_table_size(size) {
+                        return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+                    }
+                    consumed
                 }
             };
 
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..5596b21 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// The bound of the sizes the peer may choose
+    limit: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit: max_size,
         }
     }
 
@@ -110,6 +113,20 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        self.limit = new_max_size;
+        self.resize(new_max_size);
+    }
+
+    /// Applies a size update of the peer, false if it exceeds the allowed size.
+    pub(crate) fn update_max_table_size(&mut self, new_max_size: usize) -> bool {
+        if new_max_size > self.limit {
+            return false;
+        }
+        self.resize(new_max_size);
+        true
+    }
+
+    fn resize(&mut self, new_max_size: usize) {
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
-- 
2.43.0


From 48de1d0de6199c73688f86a9fb265859ee220b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 16/38] fix: refuse a header name that is not valid text
 instead of altering it

---
 src/http/http2/hpack/decoder.rs | 2 +-
 src/http/name.rs                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 657c5fc..b79f9bb 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -278,7 +278,7 @@ impl Decoder {
             // Read name string as literal
             let (name, name_len) = Self::decode_string(&buf[consumed..])?;
             consumed += name_len;
-            HeaderName::from_bytes(&name).unwrap()
+            HeaderName::from_bytes(&name).ok_or(Http2Error::into(Http2Error::MalformedMessage))?
         } else {
             // Read name indexed from the table
             // let mut name;
diff --git a/src/http/name.rs b/src/http/name.rs
index e41c055..a9c9687 100644
--- a/src/http/name.rs
+++ b/src/http/name.rs
@@ -171,7 +171,7 @@ macro_rules! standard_headers {
                         $name_bytes => Some(HeaderName::$upcase),
                     )+
                     _ => {
-                        Some(HeaderName::Value(std::string::String::from_utf8_lossy(name_bytes).to_string()))
+                        std::string::String::from_utf8(name_bytes.to_vec()).ok().map(HeaderName::Value)
                     },
                 }
             }
-- 
2.43.0


From a52935187e2d1e2c15cc94b2820ffa5659fa07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 17/38] fix: write the length and the exclusive bit of a
 PRIORITY frame

---
 src/http/http2/frame/priority.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..95261f7 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -70,7 +70,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -114,8 +115,9 @@ impl StreamDependency {
         self.dependency_id
     }
 
-    fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+    pub(crate) fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
+        let exclusive = if self.is_exclusive { !MASK_U31 } else { 0 };
+        dst.put_u32(self.dependency_id.0 & MASK_U31 | exclusive);
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From ea018390ffe948dd760df977d53a023b02470bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 18/38] fix: reject a PRIORITY frame of the wrong size

---
 src/http/http2/frame/priority.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index 95261f7..bb9893f 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -37,6 +37,9 @@ pub struct StreamDependency {
 
 impl Priority {
     pub fn parse<B: Bt>(head: FrameHeader, payload: &mut B) -> WebResult<Self> {
+        if payload.remaining() != 5 {
+            return Err(Http2Error::InvalidPayloadLength.into());
+        }
         let dependency = StreamDependency::load(payload)?;
 
         if dependency.dependency_id() == head.stream_id() {
-- 
2.43.0


From bcb9d74092dd69a1eceba20df19d5c9a0826b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 19/38] fix: keep the value of a parsed error code

---
 src/http/http2/frame/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..589e3bd 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -173,8 +173,7 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0


From 6ccc506c598d69b39688d09dc89ad702430d5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 20/38] fix: report a frame on a stream it can't belong to
 instead of panicking

---
 src/http/http2/frame/frame.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..128a171 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -160,6 +160,14 @@ impl<T: Bt> Frame<T> {
     ) -> WebResult<Frame<T>> {
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
+            Kind::Data | Kind::Headers | Kind::Reset | Kind::PushPromise
+                if header.stream_id().is_zero() =>
+            {
+                Err(Http2Error::into(Http2Error::InvalidStreamId))
+            }
+            Kind::GoAway if !header.stream_id().is_zero() => {
+                Err(Http2Error::into(Http2Error::InvalidStreamId))
+            }
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-- 
2.43.0


From f550e8ad9120a87fd11c69eafc8d0385868071ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 21/38] fix: decode the header block of a PUSH_PROMISE frame

---
 src/http/http2/frame/headers.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..b61c98b 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -444,13 +444,18 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        // the block has to pass the decoder, it shares its state with all the others
+        let mut headers = Headers::empty();
+        headers.parse(src, decoder, max_header_list_size)?;
+        push.header_block = headers.header_block;
         Ok(push)
     }
 
-- 
2.43.0


From 20b5c6243d405182efda5956cfbd3e772153b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 22/38] fix: split a header block at the frame size and end the
 stream in its first frame

---
 src/http/http2/frame/headers.rs | 49 ++++++++++++---------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index b61c98b..07d18c8 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -612,43 +612,30 @@ impl HeaderBlock {
         mut flags: Flag,
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
-        let mut result = vec![];
         let mut binary = BinaryMut::new();
-
         for value in self.fields.iter() {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
-            }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
+            encoder.encode_header_into((&value.0, &value.1), &mut binary)?;
         }
 
-        result.push(binary);
         let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
+        // neither padding nor a dependency is written
+        flags.remove(Flag::PADDED | Flag::PRIORITY | Flag::END_HEADERS);
+        let max_frame_size = std::cmp::max(encoder.max_frame_size, 1);
+        let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
+        loop {
+            let now_len = std::cmp::min(binary.remaining(), max_frame_size);
+            let is_last = now_len == binary.remaining();
+            if is_last {
+                head.flag.set_end_headers();
+            }
+            head.length = now_len as u32;
+            size += head.encode(dst)?;
+            size += dst.put_slice(&binary.chunk()[..now_len]);
+            binary.advance(now_len);
+            if is_last {
+                break;
             }
+            head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
         }
         Ok(size)
     }
-- 
2.43.0


From 74f56d78e6e5266302ea256f531f601c718587d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 23/38] fix: send the pseudo header fields set on a HEADERS
 frame

---
 src/http/http2/frame/headers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 07d18c8..f091692 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -613,7 +613,13 @@ impl HeaderBlock {
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
         let mut binary = BinaryMut::new();
+        // the pseudo header fields come before all the others
+        let mut fields = HeaderMap::new();
+        self.parts.encode_header(&mut fields);
         for value in self.fields.iter() {
+            fields.insert(value.0.clone(), value.1.clone());
+        }
+        for value in fields.iter() {
             encoder.encode_header_into((&value.0, &value.1), &mut binary)?;
         }
 
-- 
2.43.0


From eaca121c38ae6f25fb3c593157c5ac64b6d3cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 24/38] fix: write DATA frames without a padding flag when no
 padding is written

---
 src/http/http2/frame/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..c92fa7f 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -93,8 +93,11 @@ impl Data<Binary> {
     pub fn encode<B: Bt+BtMut>(&mut self,
         encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let mut size = 0;
+        // no padding is written
+        self.flags.unset_padded();
+        let max_frame_size = std::cmp::max(encoder.max_frame_size, 1);
         loop {
-            let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
+            let now_len = std::cmp::min(self.data.remaining(), max_frame_size);
             let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
             head.length = now_len as u32;
             if now_len < self.data.remaining() {
-- 
2.43.0


From 8dec4d7121bfb6eb454e1bf6175ca6e923e6766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 25/38] fix: check the padding length and keep padding out of
 header blocks

---
 src/http/http2/frame/frame.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 128a171..cf7e8ec 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -51,7 +51,7 @@ impl Frame<Binary> {
     pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
         if header.flag.is_padded() && buf.has_remaining() {
             let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
+            if pad_length as u32 >= header.length || pad_length as usize >= buf.remaining() {
                 return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
             } else {
                 buf.advance(1);
@@ -158,7 +158,17 @@ impl<T: Bt> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
-        Frame::trim_padding(&header, &mut buf)?;
+        // only these kinds may be padded
+        let padded = match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise => header.flag().is_padded(),
+            _ => false,
+        };
+        let mut padding = 0;
+        if padded {
+            let pad_length = buf.peek().ok_or(Http2Error::into(Http2Error::PayloadLengthTooShort))?;
+            padding = pad_length as usize;
+            Frame::trim_padding(&header, &mut buf)?;
+        }
         match header.kind() {
             Kind::Data | Kind::Headers | Kind::Reset | Kind::PushPromise
                 if header.stream_id().is_zero() =>
@@ -171,18 +181,22 @@ impl<T: Bt> Frame<T> {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-                header.parse(buf, decoder, max_header_list_size)?;
+                let block = Binary::copy_from_slice(&buf.chunk()[..buf.remaining() - padding]);
+                header.parse(block, decoder, max_header_list_size)?;
                 Ok(Frame::Headers(header))
             }
             Kind::Priority => Ok(Frame::Priority(Priority::parse(header, &mut buf)?)),
             Kind::Reset => Ok(Frame::Reset(Reset::parse(header, &mut buf)?)),
             Kind::Settings => Ok(Frame::Settings(Settings::parse(header, &mut buf)?)),
-            Kind::PushPromise => Ok(Frame::PushPromise(PushPromise::parse(
-                header,
-                buf,
-                decoder,
-                max_header_list_size,
-            )?)),
+            Kind::PushPromise => {
+                let block = Binary::copy_from_slice(&buf.chunk()[..buf.remaining() - padding]);
+                Ok(Frame::PushPromise(PushPromise::parse(
+                    header,
+                    block,
+                    decoder,
+                    max_header_list_size,
+                )?))
+            }
             Kind::Ping => Ok(Frame::Ping(Ping::parse(header, &mut buf)?)),
             Kind::GoAway => Ok(Frame::GoAway(GoAway::parse(&mut buf)?)),
             Kind::WindowUpdate => Ok(Frame::WindowUpdate(WindowUpdate::parse(header, &mut buf)?)),
-- 
2.43.0


From 4598606250fcfd8439bf6ba81d79e7e1f33dd4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 26/38] fix: keep port and query in the pseudo header fields of
 a request

---
 src/http/http2/frame/headers.rs |  5 +++--
 src/http/request.rs             | 21 ++-------------------
 src/url/url.rs                  | 21 +++++++++++++++++++++
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index f091692..76798c0 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -523,7 +523,8 @@ impl fmt::Debug for PushPromise {
 
 impl Parts {
     pub fn request(method: Method, uri: Url, protocol: Option<Scheme>) -> Self {
-        let path = uri.path;
+        let path = uri.path_and_query();
+        let authority = uri.get_authority();
 
         let mut parts = Parts {
             method: Some(method),
@@ -537,7 +538,7 @@ impl Parts {
             parts.set_scheme(uri.scheme);
         }
 
-        if let Some(authority) = uri.domain {
+        if uri.domain.is_some() {
             parts.set_authority(authority);
         }
 
diff --git a/src/http/request.rs b/src/http/request.rs
index cf4765b..a2da185 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -690,31 +690,14 @@ impl Parts {
         self.url.get_connect_url()
     }
 
-    /// The request target: the authority for CONNECT, otherwise path and query,
-    /// with every byte escaped that can't be sent as it is.
+    /// The request target: the authority for CONNECT, otherwise path and query.
     fn target(&self) -> String {
-        fn escape(target: &mut String, val: &str, is_path: bool) {
-            for b in val.bytes() {
-                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
-                    target.push_str(&format!("%{:02X}", b));
-                } else {
-                    target.push(b as char);
-                }
-            }
-        }
-
         if self.method == Method::Connect {
             if let Some(connect) = self.url.get_connect_url() {
                 return connect;
             }
         }
-        let mut target = String::with_capacity(self.url.path.len());
-        escape(&mut target, &self.url.path, true);
-        if let Some(query) = &self.url.query {
-            target.push('?');
-            escape(&mut target, query, false);
-        }
-        target
+        self.url.path_and_query()
     }
 }
 
diff --git a/src/url/url.rs b/src/url/url.rs
index 3a3384d..56f8075 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -342,6 +342,27 @@ impl Url {
         }
     }
 
+    /// Path and query with every byte escaped that can't be sent as it is.
+    pub(crate) fn path_and_query(&self) -> String {
+        fn escape(target: &mut String, val: &str, is_path: bool) {
+            for b in val.bytes() {
+                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
+                    target.push_str(&format!("%{:02X}", b));
+                } else {
+                    target.push(b as char);
+                }
+            }
+        }
+
+        let mut target = String::with_capacity(self.path.len());
+        escape(&mut target, &self.path, true);
+        if let Some(query) = &self.query {
+            target.push('?');
+            escape(&mut target, query, false);
+        }
+        target
+    }
+
     pub fn get_scheme(&self) -> String {
         self.scheme.as_str().to_string()
     }
-- 
2.43.0


From 87879a12d55ed322196a228ba630e92ea2110a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 27/38] fix: keep :authority and :path apart when building the
 request url

---
 src/http/http2/frame/headers.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 76798c0..8ce45d0 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -594,13 +594,22 @@ impl Parts {
         if self.authority.is_none() {
             return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
         }
+        let authority = self.authority.as_ref().unwrap();
+        let path = self.path.clone().unwrap_or("/".to_string());
+        // neither part may reach into the other
+        if authority.contains(|c| c == '/' || c == '?') || !(path.starts_with('/') || path == "*") {
+            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        }
         let url = format!(
             "{}://{}{}",
             self.scheme.as_ref().unwrap_or(&Scheme::Http),
-            self.authority.as_ref().unwrap(),
-            self.path.clone().unwrap_or("/".to_string())
+            authority,
+            if path == "*" { "/" } else { &*path }
         );
-        let url = Url::parse(url.into_bytes().to_vec())?;
+        let mut url = Url::parse(url.into_bytes().to_vec())?;
+        if path == "*" {
+            url.path = path;
+        }
         Ok(url)
     }
 }
-- 
2.43.0


From be40b3126c70e54df13774d9261edda028cb55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 28/38] fix: accept the asterisk form of a request target

---
 src/http/request.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index a2da185..4597ee6 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -569,7 +569,12 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                let mut url = Url::new();
+                if path == "*" {
+                    url.path = path;
+                } else {
+                    url = Url::try_from(path)?;
+                }
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From 02f2119a3026e8610c90ab620f6f0c542a010cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 29/38] fix: return the written size of a websocket frame

---
 src/ws/dataframe.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ws/dataframe.rs b/src/ws/dataframe.rs
index 9e92d5b..b5484d1 100644
--- a/src/ws/dataframe.rs
+++ b/src/ws/dataframe.rs
@@ -185,8 +185,7 @@ pub trait DataFrameable {
             }
             None => self.write_payload(&mut data)?,
         };
-        writer.put_slice(data.as_slice());
-        Ok(0)
+        Ok(writer.put_slice(data.as_slice()))
     }
 }
 
-- 
2.43.0


From 4ee789d65c10cadf9d993690f56591110de916c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 30/38] fix: parse a scheme from text in lower case, as schemes
 are spelled

---
 src/url/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..97e4e97 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(&*s.to_lowercase())
     }
 }
\ No newline at end of file
-- 
2.43.0


From b66a3014b3d51c3ac68d54e3b06c463a59e63576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:38 +0000
Subject: [PATCH 31/38] fix: refuse a PRIORITY frame on stream 0

---
 src/http/http2/frame/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index cf7e8ec..70c9fb1 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -170,7 +170,7 @@ impl<T: Bt> Frame<T> {
             Frame::trim_padding(&header, &mut buf)?;
         }
         match header.kind() {
-            Kind::Data | Kind::Headers | Kind::Reset | Kind::PushPromise
+            Kind::Data | Kind::Headers | Kind::Priority | Kind::Reset | Kind::PushPromise
                 if header.stream_id().is_zero() =>
             {
                 Err(Http2Error::into(Http2Error::InvalidStreamId))
-- 
2.43.0


From 5882acc3bce3039d5d4f6a350197bdf9fe010c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:40 +0000
Subject: [PATCH 32/38] fix: report the stream of a PRIORITY frame

---
 src/http/http2/frame/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 70c9fb1..77d54c7 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -79,7 +79,7 @@ impl Frame<Binary> {
         match self {
             Frame::Data(f) => f.stream_id(),
             Frame::Headers(f) => f.stream_id(),
-            Frame::Priority(_f) => StreamIdentifier::zero(),
+            Frame::Priority(f) => f.stream_id(),
             Frame::PushPromise(f) => f.stream_id(),
             Frame::Settings(_f) => StreamIdentifier::zero(),
             Frame::Ping(_f) => StreamIdentifier::zero(),
-- 
2.43.0


From 11270e10edfd4b0e9c1165103e10287f27a7fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 33/38] name the parts of a header frame under
 cfg(webparse_verif)

---
 src/http/http2/frame/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index 589e3bd..bdf6680 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -29,6 +29,9 @@ pub use data::Data;
 pub use flag::Flag;
 pub use frame::{Frame, PriorityFrame};
 pub use headers::{Headers, PushPromise};
+#[allow(unexpected_cfgs)]
+#[cfg(webparse_verif)]
+pub use headers::Parts;
 pub use kind::Kind;
 pub use priority::{Priority, StreamDependency};
 
-- 
2.43.0


From 7a8889032c7e6bbb5717f5471eafe9737e6d0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 34/38] fix: refuse a :scheme that is not a scheme name

---
 src/http/http2/frame/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 8ce45d0..4210e47 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -600,9 +600,16 @@ impl Parts {
         if authority.contains(|c| c == '/' || c == '?') || !(path.starts_with('/') || path == "*") {
             return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
         }
+        let scheme = self.scheme.as_ref().unwrap_or(&Scheme::Http).as_str();
+        if !scheme
+            .bytes()
+            .all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b))
+        {
+            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        }
         let url = format!(
             "{}://{}{}",
-            self.scheme.as_ref().unwrap_or(&Scheme::Http),
+            scheme,
             authority,
             if path == "*" { "/" } else { &*path }
         );
-- 
2.43.0


From fafe0cd616bf174ee34477a7818303edfda99028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 35/38] fix: the smallest signed number in a header value is
 read

---
 src/http/value.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 46fcc3f..6c75811 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -147,19 +147,17 @@ impl TryInto<isize> for &HeaderValue {
                         }
                         return Err(WebError::IntoError);
                     }
+                    // 负数向下累加, 保证最小值可以被表示
+                    let digit = (b - Helper::DIGIT_0) as isize;
                     result = result
                         .checked_mul(10)
-                        .and_then(|v| v.checked_add((b - Helper::DIGIT_0) as isize))
+                        .and_then(|v| if is_neg { v.checked_sub(digit) } else { v.checked_add(digit) })
                         .ok_or(WebError::IntoError)?;
                 }
                 if v.len() == is_neg as usize {
                     return Err(WebError::IntoError);
                 }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+                Ok(result)
             }
         }
     }
-- 
2.43.0


From 7ef8a3ec2d53c8856c49501d3883dbdf0ca8d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 36/38] fix: a reason phrase may hold tabs and octets above 127

---
 src/helper.rs        | 3 ++-
 src/http/response.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 2289257..74b323b 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -38,7 +38,8 @@ impl Helper {
 
     #[inline]
     pub fn is_status_token(b: u8) -> bool {
-        b > 0x1F && b < 0x7F
+        // reason-phrase = 1*( HTAB / SP / VCHAR / obs-text )
+        b == b'\t' || (b > 0x1F && b != 0x7F)
     }
     
     #[inline]
diff --git a/src/http/response.rs b/src/http/response.rs
index cc0d106..2d202f3 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -711,6 +711,11 @@ impl<T: Serialize> Response<T> {
         self.parts.version = Helper::parse_version(buffer)?;
         Helper::skip_spaces(buffer)?;
         self.parts.status = Helper::parse_status(buffer)?;
+        // the code is followed by a space or by the end of the line
+        match buffer.peek() {
+            Some(b' ') | Some(b'\r') | Some(b'\n') | None => {}
+            Some(_) => return Err(WebError::from(crate::HttpError::Token)),
+        }
         Helper::skip_spaces(buffer)?;
         let _reason = Helper::parse_reason(buffer)?;
         Helper::skip_new_line(buffer)?;
-- 
2.43.0


From 1dc89234e07ea255ddf199bc396e4eb936942c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 37/38] fix: accept a promised request without a body, refuse
 one with a body

---
 src/http/http2/frame/headers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 4210e47..0ba0f50 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -414,7 +414,8 @@ impl PushPromise {
         // The spec has some requirements for promised request headers
         // [https://httpwg.org/specs/rfc7540.html#PushRequests]
 
-        if req.get_body_len() == 0 {
+        // a promised request has no body
+        if req.get_body_len() != 0 {
             return Err(Http2Error::PayloadLengthTooShort.into());
         }
         // "The server MUST include a method in the :method parts-header field
-- 
2.43.0


From 4a265aff0157afde56f383007b633ad438962a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 38/38] fix: leave the blanks around a header value out of it

---
 src/helper.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 74b323b..3fdc703 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -304,7 +304,12 @@ impl Helper {
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
         let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        // the blanks around a value are not part of it
+        let blank = |b: &u8| *b == b' ' || *b == b'\t';
+        let token = token.as_bytes();
+        let start = token.iter().position(|b| !blank(b)).unwrap_or(token.len());
+        let end = token.iter().rposition(|b| !blank(b)).map_or(start, |i| i + 1);
+        Ok(HeaderValue::Value(token[start..end].to_vec()))
     }
 
     #[inline]
-- 
2.43.0

