From db4300d0923a918f4ef2103521e59f20d987047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 01/55] fix: a byte that is not a line end is a malformed line,
 not a partial one

skip_new_line accepted a space as a line end (so 'HTTP/1.1 \r\n' ended the
head early) and reported any other byte as Partial, so a complete but
malformed head asked for more data for ever.
---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..99744a1 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -320,9 +320,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From 9f72b54e0d51a6e4637d8f800d1d824140ea67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 02/55] fix: a line feed ends a header value, and an empty
 value consumes nothing

A bare LF was accepted inside a value although it ends lines everywhere else,
so a relayed value could smuggle a header; an empty value swallowed the CR
that the line-end check should see.
---
 src/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 99744a1..0e22475 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -258,7 +258,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
-- 
2.43.0


From 38ab6594fcb1a10c27e251b1e64875860afc108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 03/55] fix: whitespace around a header value is not part of
 the value

'Content-Length: 5 ' was read as no length at all and 'Host: a:8080 ' as a
malformed port.
---
 src/helper.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 0e22475..b1de738 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -302,7 +302,16 @@ impl Helper {
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
         let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        // 值前后的空白(OWS)不属于值的内容
+        let is_ows = |b: &u8| *b == b' ' || *b == b'\t';
+        let mut value = token.as_bytes();
+        while value.first().map_or(false, is_ows) {
+            value = &value[1..];
+        }
+        while value.last().map_or(false, is_ows) {
+            value = &value[..value.len() - 1];
+        }
+        Ok(HeaderValue::Value(value.to_vec()))
     }
 
     #[inline]
-- 
2.43.0


From c0f614f0b114229250d72829b1af56bdfca7003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 04/55] fix: accept an empty reason phrase and any text in one

RFC 9112 makes the phrase optional and allows tabs and non-ASCII text in it;
such responses were rejected, or reported as partial for ever.
---
 src/helper.rs        | 5 -----
 src/http/response.rs | 3 ++-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index b1de738..d3ec73f 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -285,11 +285,6 @@ impl Helper {
         Self::parse_token_by_func(buffer, Self::is_token, WebError::from(HttpError::Token))
     }
 
-    #[inline]
-    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
-    }
-
     #[inline]
     pub(crate) fn parse_header_name<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderName> {
         let token = Self::parse_token_by_func(buffer, Self::is_header_name_token, WebError::from(HttpError::HeaderName))?;
diff --git a/src/http/response.rs b/src/http/response.rs
index 99e704c..b371a03 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -712,7 +712,8 @@ impl<T: Serialize> Response<T> {
         Helper::skip_spaces(buffer)?;
         self.parts.status = Helper::parse_status(buffer)?;
         Helper::skip_spaces(buffer)?;
-        let _reason = Helper::parse_status_token(buffer)?;
+        // reason可为空, 且可包含除换行外的任意字符
+        let _reason = Helper::parse_header_value(buffer)?;
         Helper::skip_new_line(buffer)?;
         Helper::parse_header(buffer, &mut self.parts.header)?;
         self.partial = false;
-- 
2.43.0


From 7de6fa850153984b2d740a92bae0683bcab27017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 05/55] fix: encode responses whose status code has no
 registered phrase

A response with such a code parses but could not be encoded again.
---
 src/http/status.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/status.rs b/src/http/status.rs
index 1b7824e..4a6ef9d 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -204,7 +204,8 @@ impl StatusCode {
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         match self.canonical_reason() {
             Some(s) => Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), s).as_bytes())),
-            _ => return Err(WebError::from(HttpError::InvalidStatusCode)),
+            // 未登记的状态码没有默认的说明文本
+            _ => Ok(buffer.put_slice(format!("{} \r\n", self.as_str()).as_bytes())),
         }
     }
 }
-- 
2.43.0


From 8cd6666e838d2d29872177d46c6337da07706815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 06/55] fix: a bad request target in a whole head is an error,
 not partial

'GET /%4 HTTP/1.1' or 'GET http: HTTP/1.1' asked for more data for ever, and
a request that failed on its target reported itself complete.
---
 src/http/request.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..5bc10e8 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -18,7 +18,7 @@ use std::{
 use super::{http2::HeaderIndex, HeaderMap, Method, Version};
 use crate::{
     http2::frame::Settings, Extensions, HeaderName, HeaderValue, Helper, Scheme, Serialize, Url,
-    WebError, WebResult,
+    UrlError, WebError, WebResult,
 };
 use algorithm::buf::{BinaryMut, Bt, BtMut};
 
@@ -560,7 +560,6 @@ where
         self.parts.version = Helper::parse_version(buffer)?;
         Helper::skip_new_line(buffer)?;
         Helper::parse_header(buffer, &mut self.parts.header)?;
-        self.partial = false;
         self.parts.url = match self.parts.method {
             // Connect 协议, Path则为连接地址,
             Method::Connect => {
@@ -569,7 +568,11 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                // 此时请求头已完整, 不完整的路径即为非法路径
+                let mut url = Url::try_from(path).map_err(|e| match e.is_partial() {
+                    true => WebError::from(UrlError::UrlInvalid),
+                    false => e,
+                })?;
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
@@ -594,6 +597,7 @@ where
                 url
             }
         };
+        self.partial = false;
         Ok(len - buffer.remaining())
     }
 
-- 
2.43.0


From 17972d3c303f347fd8c1bc774781cfce5035b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 07/55] fix: '@' is an ordinary character once the path has
 begun

'/@scope/pkg' was rejected and 'http://host/a@b' lost its host and path.
---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..9cf347e 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -172,7 +172,7 @@ impl Url {
                 } else {
                     val.push(b);
                 }
-            } else if b == b'@' {
+            } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
                 if domain.is_none() {
                     return Err(WebError::from(UrlError::UrlInvalid));
-- 
2.43.0


From b2d9aa326397cf0a845ec5c47ef911c7942073a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 08/55] fix: accept an IPv6 literal in Host and CONNECT targets

The colons of '[::1]:80' were taken for port separators, so the request was
rejected.
---
 src/http/request.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 5bc10e8..26f722f 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -534,13 +534,18 @@ where
     }
 
     fn parse_connect_by_host(url: &mut Url, h: &String) -> WebResult<()> {
-        // Host中存在端口号, 则直接取端口号
-        let vec: Vec<&str> = h.split(":").collect();
+        // Host中存在端口号, 则直接取端口号, IPv6地址在[]中, 其中的冒号不为端口号
+        let end = match h.rfind(']') {
+            Some(idx) if h.starts_with('[') => idx + 1,
+            _ => 0,
+        };
+        let vec: Vec<&str> = h[end..].split(":").collect();
+        let domain = format!("{}{}", &h[..end], vec[0]);
         if vec.len() == 1 {
-            url.domain = Some(vec[0].to_string());
+            url.domain = Some(domain);
             url.port = Some(80);
         } else if vec.len() == 2 {
-            url.domain = Some(vec[0].to_string());
+            url.domain = Some(domain);
             url.port = Some(vec[1].parse().map_err(WebError::from)?);
         } else {
             return Err(WebError::IntoError);
-- 
2.43.0


From e02e671d78317dcd061ed877166df382ef70a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 09/55] fix: only letters compare equal ignoring case

Any two bytes 32 apart were taken as equal, so distinct header names such as
'a^b' and 'a~b' overwrote each other.
---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index d3ec73f..d3d012a 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -447,8 +447,8 @@ impl Helper {
             if a[i] == b[i] {
                 continue;
             }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
+            // 仅字母存在大小写, 其它相差32的字符并不相同
+            if !a[i].eq_ignore_ascii_case(&b[i]) {
                 return false;
             }
         }
-- 
2.43.0


From f5c6d256dad3e51c06d5336d297bc641aeb3aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 10/55] fix: re-encode the request target instead of writing
 its decoded path

---
 src/http/request.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 26f722f..f3f1408 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -650,7 +650,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += buffer.put_slice(&self.encode_target());
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
@@ -658,6 +658,33 @@ where
         Ok(size)
     }
 
+    /// 请求行中的目标地址, 解析时path与query已被解码, 输出时需重新编码
+    fn encode_target(&self) -> Vec<u8> {
+        let url = &self.parts.url;
+        if let (Method::Connect, Some(connect)) = (&self.parts.method, url.get_connect_url()) {
+            return connect.into_bytes();
+        }
+        let mut target = vec![];
+        Self::encode_target_part(&mut target, &url.path, b"%#?");
+        if let Some(query) = &url.query {
+            target.push(b'?');
+            Self::encode_target_part(&mut target, query, b"%#");
+        }
+        target
+    }
+
+    fn encode_target_part(target: &mut Vec<u8>, val: &str, special: &[u8]) {
+        for b in val.bytes() {
+            if Helper::is_token(b) && !special.contains(&b) {
+                target.push(b);
+            } else {
+                target.push(b'%');
+                target.push(Helper::to_hex(b / 16));
+                target.push(Helper::to_hex(b % 16));
+            }
+        }
+    }
+
     pub fn replace_clone(&mut self, mut body: T) -> Request<T> {
         let parts = self.parts.clone();
         let partial = self.partial;
-- 
2.43.0


From 6dbf3cd6ef11d07090a20a481867bf4a8c6ee651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 11/55] fix: an oversized chunk length is an error, not a panic

---
 src/helper.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index d3d012a..f873f64 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -276,8 +276,17 @@ impl Helper {
     }
 
     #[inline]
-    pub(crate) fn parse_hex<'a, B: Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_hex, WebError::from(HttpError::Token))
+    pub(crate) fn parse_hex<B: Bt>(buffer: &mut B) -> WebResult<usize> {
+        if !Self::is_hex(peek!(buffer)?) {
+            return Err(WebError::from(HttpError::Token));
+        }
+        let mut num = 0usize;
+        while Self::is_hex(peek!(buffer)?) {
+            let digit = (next!(buffer)? as char).to_digit(16).unwrap_or(0) as usize;
+            // 长度超出可表示的范围
+            num = num.checked_mul(16).ok_or(WebError::IntoError)? + digit;
+        }
+        Ok(num)
     }
 
     #[inline]
@@ -394,9 +403,8 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        if num.checked_add(2).ok_or(WebError::IntoError)? > val.remaining() {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From 71fd833b706ce837084610b2bf140756bac04b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 12/55] fix: a chunk whose data is not followed by a line end
 is malformed

---
 src/helper.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index f873f64..eb10cbf 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -404,8 +404,14 @@ impl Helper {
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
         Helper::skip_new_line(&mut val)?;
-        if num.checked_add(2).ok_or(WebError::IntoError)? > val.remaining() {
-            return Err(WebError::Http(HttpError::Partial));
+        num.checked_add(2).ok_or(WebError::IntoError)?;
+        // 数据之后必须为换行符, 长度为0的块之后可能为trailers
+        let end = |idx: usize| val.chunk().get(idx).copied().ok_or(WebError::Http(HttpError::Partial));
+        match end(num)? {
+            b'\r' if end(num + 1)? != b'\n' => return Err(WebError::from(HttpError::NewLine)),
+            b'\r' | b'\n' => (),
+            _ if num == 0 => (),
+            _ => return Err(WebError::from(HttpError::NewLine)),
         }
         return Ok((len - val.remaining(), num));
 
-- 
2.43.0


From f6037214287b150fb38487ede53aeed3f2c5c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 13/55] fix: chunk extensions are skipped

---
 src/helper.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index eb10cbf..320de16 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -403,6 +403,15 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
+        // 块扩展以分号开始, 不识别的扩展必须忽略
+        while matches!(peek!(val)?, b' ' | b'\t') {
+            next!(val)?;
+        }
+        if peek!(val)? == b';' {
+            while Self::is_header_value_token(peek!(val)?) {
+                next!(val)?;
+            }
+        }
         Helper::skip_new_line(&mut val)?;
         num.checked_add(2).ok_or(WebError::IntoError)?;
         // 数据之后必须为换行符, 长度为0的块之后可能为trailers
-- 
2.43.0


From 2bc66fe595a5bd62e5216db7cc01929dbc665f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 14/55] fix: a number too large for its type is an error, not a
 panic

---
 src/http/value.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..ffd9af1 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -116,11 +116,10 @@ impl TryInto<usize> for &HeaderValue {
                     if !Helper::is_digit(*b) {
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
+                    let digit = (b - Helper::DIGIT_0) as usize;
+                    match result.checked_mul(10).and_then(|u| u.checked_add(digit)) {
+                        Some(u) => result = u,
+                        None => return Err(WebError::IntoError),
                     }
                 }
                 Ok(result)
@@ -138,19 +137,18 @@ impl TryInto<isize> for &HeaderValue {
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
                 let mut is_neg = false;
-                for b in v {
+                for (i, b) in v.iter().enumerate() {
                     if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
+                        if b == &b'-' && i == 0 {
                             is_neg = true;
                             continue;
                         }
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
+                    let digit = (b - Helper::DIGIT_0) as isize;
+                    match result.checked_mul(10).and_then(|u| u.checked_add(digit)) {
+                        Some(u) => result = u,
+                        None => return Err(WebError::IntoError),
                     }
                 }
                 if is_neg {
-- 
2.43.0


From a88ba55b24461e415f29c052feaecb62e1e7b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 15/55] fix: connection options and transfer codings compare
 ignoring case

---
 src/http/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..642b300 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -301,7 +301,8 @@ impl HeaderMap {
             return false;
         }
         for i in 0..(src.len() - dst.len() + 1) {
-            if &src[i..(i + dst.len())] == dst {
+            // 连接选项与传输编码等标记不区分大小写
+            if src[i..(i + dst.len())].eq_ignore_ascii_case(dst) {
                 return true;
             }
         }
-- 
2.43.0


From e0a5acc9fc91102995ff1acdd0fa3a6e2b9df5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 16/55] fix: the static HPACK table entry 15 is accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From 4b1d3e495d0d5488026203452ef345f99623a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 17/55] fix: an indexed header field may need several octets

---
 src/http/http2/hpack/decoder.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..07cdfe4 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,13 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
-        let header = self.index.read().unwrap();
-        let (name, value) = header
-            .get_from_index(index as usize)
-            .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
-        call(name, value);
-        Ok(1)
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
+        self.get_from_table(index, call)?;
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From 345403f5d073180642fde6f4ba0d43a3b1ba6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 18/55] fix: apply HPACK dynamic table size updates instead of
 looping on them

---
 src/http/http2/hpack/decoder.rs      | 15 +++++++++++++--
 src/http/http2/hpack/header_index.rs | 15 +++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 07cdfe4..89892a6 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -164,8 +164,7 @@ impl Decoder {
                 }
                 FieldRepresentation::SizeUpdate => {
                     // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    self.update_max_dynamic_size(buffer_leftover)?
                 }
             };
 
@@ -174,6 +173,18 @@ impl Decoder {
         Ok(())
     }
 
+    /// Applies a dynamic table size update, which must stay within the limit
+    /// the table was given.
+    ///
+    /// Returns the number of bytes from the buffer that were used.
+    fn update_max_dynamic_size(&mut self, buf: &[u8]) -> WebResult<usize> {
+        let (new_size, consumed) = Self::decode_integer(buf, 5)?;
+        if !self.index.write().unwrap().update_table_size(new_size) {
+            return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+        }
+        Ok(consumed)
+    }
+
     /// Decodes an integer encoded with a given prefix size (in bits).
     /// Assumes that the buffer `buf` contains the integer to be decoded,
     /// with the first byte representing the octet that contains the
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..d4f2515 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// The bound set by the settings, within which `max_size` may be updated.
+    limit_size: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit_size: max_size,
         }
     }
 
@@ -110,11 +113,23 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        self.limit_size = new_max_size;
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Handles a dynamic table size update sent by the peer.
+    /// Returns false if it exceeds the limit set for this table.
+    pub fn update_table_size(&mut self, new_size: usize) -> bool {
+        if new_size > self.limit_size {
+            return false;
+        }
+        self.max_size = new_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From ccc4ab2c793f8ee9178b00b46de62a5e3efd171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 19/55] fix: EOS inside a Huffman string is an error, not a
 zero byte

---
 src/http/http2/hpack/huffman.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..50d220b 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -62,8 +62,11 @@ impl HuffmanDecoder {
 
             let key = (current, current_len);
             if HUFFMAN_CODE_MAP.contains_key(&key) {
-                let val = HUFFMAN_CODE_MAP.get(&key).unwrap();
-                result.push(*val);
+                let val = *HUFFMAN_CODE_MAP.get(&key).unwrap();
+                if val > u8::MAX as u16 {
+                    return Err(Http2Error::into(HuffmanDecoderError::EOSInString));
+                }
+                result.push(val as u8);
                 current = 0;
                 current_len = 0;
                 all_true = true;
@@ -477,10 +480,10 @@ static HUFFMAN_CODE_ARRAY: &'static [(u32, u8)] = &[
 ];
 
 lazy_static! {
-    static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u8> = {
-        let mut m = HashMap::<(u32, u8), u8>::new();
+    static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u16> = {
+        let mut m = HashMap::<(u32, u8), u16>::new();
         for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate() {
-            m.insert((code, code_len), symbol as u8);
+            m.insert((code, code_len), symbol as u16);
         }
         m
     };
-- 
2.43.0


From bfb971182ab9b4f2f6116f64caba64e925bcd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 20/55] fix: a header name that is not text is an error instead
 of being altered

---
 src/http/http2/hpack/decoder.rs | 2 +-
 src/http/name.rs                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 89892a6..db9d564 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -287,7 +287,7 @@ impl Decoder {
             // Read name string as literal
             let (name, name_len) = Self::decode_string(&buf[consumed..])?;
             consumed += name_len;
-            HeaderName::from_bytes(&name).unwrap()
+            HeaderName::from_bytes(&name).ok_or(Http2Error::into(Http2Error::MalformedMessage))?
         } else {
             // Read name indexed from the table
             // let mut name;
diff --git a/src/http/name.rs b/src/http/name.rs
index e41c055..bde0f61 100644
--- a/src/http/name.rs
+++ b/src/http/name.rs
@@ -171,7 +171,7 @@ macro_rules! standard_headers {
                         $name_bytes => Some(HeaderName::$upcase),
                     )+
                     _ => {
-                        Some(HeaderName::Value(std::string::String::from_utf8_lossy(name_bytes).to_string()))
+                        std::str::from_utf8(name_bytes).ok().map(|name| HeaderName::Value(name.to_string()))
                     },
                 }
             }
-- 
2.43.0


From 7246a789444fd6b05c131a230d4a7db40f6aed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 21/55] fix: an encoder announces a changed HPACK table limit
 to its peer

---
 src/http/http2/hpack/encoder.rs      |  4 ++++
 src/http/http2/hpack/header_index.rs | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/http/http2/hpack/encoder.rs b/src/http/http2/hpack/encoder.rs
index 90f55aa..20b856f 100644
--- a/src/http/http2/hpack/encoder.rs
+++ b/src/http/http2/hpack/encoder.rs
@@ -67,6 +67,10 @@ impl Encoder {
         header: (&HeaderName, &HeaderValue),
         writer: &mut B,
     ) -> io::Result<()> {
+        let updates = { self.index.write().unwrap().take_size_updates() };
+        for size in updates {
+            Self::encode_integer_into(size, 5, 0x20, writer)?;
+        }
         let value = { self.index.read().unwrap().find_header(header) };
 
         match value {
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index d4f2515..b2c7e97 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -21,6 +21,8 @@ pub struct HeaderIndex {
     max_size: usize,
     /// The bound set by the settings, within which `max_size` may be updated.
     limit_size: usize,
+    /// The smallest limit set since an encoder last announced it to its peer.
+    pending_size: Option<usize>,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -97,6 +99,7 @@ impl HeaderIndex {
             size: 0,
             max_size,
             limit_size: max_size,
+            pending_size: None,
         }
     }
 
@@ -113,12 +116,26 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        if self.pending_size.is_some() || new_max_size != self.max_size {
+            let smallest = self.pending_size.unwrap_or(new_max_size);
+            self.pending_size = Some(smallest.min(new_max_size));
+        }
         self.limit_size = new_max_size;
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Takes the size updates an encoder must announce before the next header
+    /// block: the smallest limit set meanwhile, and the one now in force.
+    pub fn take_size_updates(&mut self) -> Vec<usize> {
+        match self.pending_size.take() {
+            Some(smallest) if smallest != self.max_size => vec![smallest, self.max_size],
+            Some(_) => vec![self.max_size],
+            None => vec![],
+        }
+    }
+
     /// Handles a dynamic table size update sent by the peer.
     /// Returns false if it exceeds the limit set for this table.
     pub fn update_table_size(&mut self, new_size: usize) -> bool {
-- 
2.43.0


From 06c9b7b6ca94387b5714304f0b3c7dce8131d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 22/55] fix: any 32 bit HPACK integer can be decoded

---
 src/http/http2/hpack/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index db9d564..e980f4d 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -218,7 +218,8 @@ impl Decoder {
 
         let mut total = 1;
         let mut m = 0;
-        let octet_limit = 5;
+        // 前缀加五个字节可表示所有32位的值
+        let octet_limit = 6;
 
         for &b in buf[1..].iter() {
             total += 1;
-- 
2.43.0


From 6627c36a349756e1defe02edf511891361386e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 23/55] fix: undefined HTTP/2 flag bits are ignored

---
 src/http/http2/frame/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..891ebc4 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -229,8 +229,8 @@ impl FrameHeader {
         }
         let length = read_u24(buffer);
         let kind = Kind::new(buffer.get_u8());
-        let flag = buffer.get_u8();
-        let flag = Flag::new(flag).map_err(|()| Http2Error::into(Http2Error::BadFlag(flag)))?;
+        // 未定义的标志位必须被忽略
+        let flag = Flag::from_bits_truncate(buffer.get_u8());
         let id = StreamIdentifier::parse(buffer);
         Ok(FrameHeader {
             length,
-- 
2.43.0


From bdae5d7c9cea60c68bc2ce1c42382458dc32c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 24/55] fix: remove HTTP/2 padding completely, and only where
 it is defined

---
 src/http/http2/frame/frame.rs | 74 +++++++++++++++++++++++++++++------
 src/http/http2/frame/mod.rs   |  2 +-
 2 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 891ebc4..92b67da 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -16,7 +16,7 @@ use crate::{
     http::http2::{encoder::Encoder, Decoder},
     HeaderMap, Http2Error, Serialize, WebResult,
 };
-use algorithm::buf::{Binary, Bt, BtMut};
+use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt, BtMut};
 
 use super::{
     encode_u24, headers::PushPromise, read_u24, Data, Flag, GoAway, Headers, Kind, Ping, Priority,
@@ -25,6 +25,44 @@ use super::{
 
 pub const FRAME_HEADER_BYTES: usize = 9;
 
+/// A frame payload that can be shortened, to remove the padding at its end.
+pub trait Truncate: Bt {
+    /// Keeps the first `len` of the remaining bytes.
+    fn truncate(&mut self, len: usize);
+}
+
+impl Truncate for Binary {
+    fn truncate(&mut self, len: usize) {
+        *self = Binary::from(self.chunk()[..len].to_vec());
+    }
+}
+
+impl Truncate for BinaryMut {
+    fn truncate(&mut self, len: usize) {
+        *self = BinaryMut::from(self.chunk()[..len].to_vec());
+    }
+}
+
+impl<'a> Truncate for BinaryRef<'a> {
+    fn truncate(&mut self, len: usize) {
+        let chunk = &self.chunk()[..len];
+        // BinaryRef<'a>引用的数据在'a内有效
+        *self = BinaryRef::from(unsafe { std::slice::from_raw_parts(chunk.as_ptr(), len) });
+    }
+}
+
+impl<'a> Truncate for &'a [u8] {
+    fn truncate(&mut self, len: usize) {
+        *self = &self[..len];
+    }
+}
+
+impl<T: Truncate> Truncate for &mut T {
+    fn truncate(&mut self, len: usize) {
+        T::truncate(self, len)
+    }
+}
+
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct FrameHeader {
     pub length: u32,
@@ -47,16 +85,24 @@ pub enum Frame<T = Binary> {
 }
 
 impl Frame<Binary> {
+    /// Removes the pad length and the padding from the payload of a padded
+    /// DATA, HEADERS or PUSH_PROMISE frame.
     #[inline]
-    pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
-        if header.flag.is_padded() && buf.has_remaining() {
-            let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
-                return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
-            } else {
-                buf.advance(1);
-                // buf.mark_len(header.length as usize - pad_length as usize - 1);
-            }
+    pub fn trim_padding<B: Truncate>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
+        match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise if header.flag.is_padded() => {}
+            _ => return Ok(()),
+        }
+        let pad_length = match buf.peek() {
+            Some(v) => v,
+            None => return Err(Http2Error::into(Http2Error::PayloadLengthTooShort)),
+        };
+        if pad_length as usize >= buf.remaining() {
+            return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
+        }
+        buf.advance(1);
+        if pad_length > 0 {
+            buf.truncate(buf.remaining() - pad_length as usize);
         }
         Ok(())
     }
@@ -151,14 +197,16 @@ impl Frame<Binary> {
     }
 }
 
-impl<T: Bt> Frame<T> {
+impl<T: Truncate> Frame<T> {
     pub fn parse(
-        header: FrameHeader,
+        mut header: FrameHeader,
         mut buf: T,
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
         Frame::trim_padding(&header, &mut buf)?;
+        // 填充已被移除
+        header.flags_mut().unset_padded();
         match header.kind() {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
             Kind::Headers => {
@@ -185,7 +233,9 @@ impl<T: Bt> Frame<T> {
             _ => Err(crate::WebError::Extension("")),
         }
     }
+}
 
+impl<T: Bt> Frame<T> {
     /// How many bytes this Frame will use in a buffer when encoding.
     pub fn encoded_len(&self) -> usize {
         0
diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..cf20fd7 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -27,7 +27,7 @@ use std::{cmp::Ordering, fmt::Display};
 
 pub use data::Data;
 pub use flag::Flag;
-pub use frame::{Frame, PriorityFrame};
+pub use frame::{Frame, PriorityFrame, Truncate};
 pub use headers::{Headers, PushPromise};
 pub use kind::Kind;
 pub use priority::{Priority, StreamDependency};
-- 
2.43.0


From f469facd9bc1c5289db22b01e5b34b5f026b5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 25/55] fix: a frame with an illegal stream id is an error, not
 a panic

---
 src/http/http2/frame/frame.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 92b67da..abef78c 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -107,6 +107,21 @@ impl Frame<Binary> {
         Ok(())
     }
 
+    /// Frames of a stream need a stream id, frames of the connection have none.
+    fn check_stream_id(header: &FrameHeader) -> WebResult<()> {
+        let valid = match header.kind() {
+            Kind::Data | Kind::Headers | Kind::Priority | Kind::Reset | Kind::PushPromise => {
+                !header.stream_id().is_zero()
+            }
+            Kind::Settings | Kind::Ping | Kind::GoAway => header.stream_id().is_zero(),
+            _ => true,
+        };
+        if !valid {
+            return Err(Http2Error::into(Http2Error::InvalidStreamId));
+        }
+        Ok(())
+    }
+
     pub fn display_name(&self) -> String {
         match self {
             Frame::Data(f) => format!("Data({})", f.stream_id()),
@@ -204,6 +219,7 @@ impl<T: Truncate> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
+        Frame::check_stream_id(&header)?;
         Frame::trim_padding(&header, &mut buf)?;
         // 填充已被移除
         header.flags_mut().unset_padded();
-- 
2.43.0


From fa3bf7d8141d47dfd0a82208cc32557409448ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 26/55] fix: PRIORITY frames keep their length and the
 exclusive bit

---
 src/http/http2/frame/priority.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..f24cf8c 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -37,6 +37,9 @@ pub struct StreamDependency {
 
 impl Priority {
     pub fn parse<B: Bt>(head: FrameHeader, payload: &mut B) -> WebResult<Self> {
+        if payload.remaining() != 5 {
+            return Err(Http2Error::BadFrameSize.into());
+        }
         let dependency = StreamDependency::load(payload)?;
 
         if dependency.dependency_id() == head.stream_id() {
@@ -70,7 +73,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -114,8 +118,12 @@ impl StreamDependency {
         self.dependency_id
     }
 
-    fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+    pub(crate) fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
+        let mut dependency_id = self.dependency_id;
+        if self.is_exclusive {
+            dependency_id.0 |= !MASK_U31;
+        }
+        dependency_id.encode(dst)?;
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From 94385b6c12c2ce3a2e29862185f8f0bc32bc77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 27/55] fix: a frame reports the stream of PRIORITY and the
 flags of PING

---
 src/http/http2/frame/frame.rs | 4 ++--
 src/http/http2/frame/ping.rs  | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index abef78c..d68879d 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -140,7 +140,7 @@ impl Frame<Binary> {
         match self {
             Frame::Data(f) => f.stream_id(),
             Frame::Headers(f) => f.stream_id(),
-            Frame::Priority(_f) => StreamIdentifier::zero(),
+            Frame::Priority(f) => f.stream_id(),
             Frame::PushPromise(f) => f.stream_id(),
             Frame::Settings(_f) => StreamIdentifier::zero(),
             Frame::Ping(_f) => StreamIdentifier::zero(),
@@ -157,7 +157,7 @@ impl Frame<Binary> {
             Frame::Priority(_f) => Flag::zero(),
             Frame::PushPromise(f) => f.flags(),
             Frame::Settings(f) => f.flags(),
-            Frame::Ping(_f) => Flag::zero(),
+            Frame::Ping(f) => f.flags(),
             Frame::GoAway(_f) => Flag::zero(),
             Frame::WindowUpdate(_f) => Flag::zero(),
             Frame::Reset(_f) => Flag::zero(),
diff --git a/src/http/http2/frame/ping.rs b/src/http/http2/frame/ping.rs
index e90ecad..69e8a49 100644
--- a/src/http/http2/frame/ping.rs
+++ b/src/http/http2/frame/ping.rs
@@ -57,6 +57,14 @@ impl Ping {
         self.ack
     }
 
+    pub fn flags(&self) -> Flag {
+        if self.ack {
+            Flag::ack()
+        } else {
+            Flag::zero()
+        }
+    }
+
     pub fn payload(&self) -> &Payload {
         &self.payload
     }
-- 
2.43.0


From 10140d4dce54f29b8ee0fd610ad4c5ed4d9a0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 28/55] fix: a HEADERS frame carries its pseudo header fields,
 and carries them first

---
 src/http/http2/frame/headers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..51f93d7 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -295,6 +295,9 @@ impl Headers {
     }
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
+        self.header_block
+            .parts
+            .encode_header(&mut self.header_block.fields);
         let size = self
             .header_block
             .encode(encoder, dst, self.flags, self.stream_id)?;
@@ -610,7 +613,10 @@ impl HeaderBlock {
         let mut result = vec![];
         let mut binary = BinaryMut::new();
 
-        for value in self.fields.iter() {
+        // 伪头字段必须在普通字段之前
+        let pseudo = self.fields.iter().filter(|v| v.0.is_spec());
+        let regular = self.fields.iter().filter(|v| !v.0.is_spec());
+        for value in pseudo.chain(regular) {
             if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
                 > encoder.max_frame_size as usize
             {
-- 
2.43.0


From 79ea08ef1b18c28f5da3c908aed48f991eb406b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 29/55] fix: header blocks are split to the frame size, with
 the flags RFC 9113 asks for

---
 src/http/http2/frame/headers.rs | 82 ++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 51f93d7..c20e6d9 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -12,7 +12,7 @@
 
 use crate::{
     http::{request, response},
-    http2::DecoderError,
+    http2::{DecoderError, MAX_MAX_FRAME_SIZE},
     HeaderName, Request, Serialize,
 };
 use std::fmt;
@@ -300,7 +300,7 @@ impl Headers {
             .encode_header(&mut self.header_block.fields);
         let size = self
             .header_block
-            .encode(encoder, dst, self.flags, self.stream_id)?;
+            .encode(encoder, dst, self.flags, self.stream_id, self.stream_dep.as_ref())?;
         log::trace!("HTTP2: 编码头信息; len={}", size);
         Ok(size)
     }
@@ -494,7 +494,7 @@ impl PushPromise {
 
         size += self
             .header_block
-            .encode(encoder, dst, self.flags, self.promised_id)?;
+            .encode(encoder, dst, self.flags, self.promised_id, None)?;
         log::trace!("HTTP2: 编码推送信息; len={}", size);
         Ok(size)
     }
@@ -607,51 +607,57 @@ impl HeaderBlock {
         &mut self,
         encoder: &mut Encoder,
         dst: &mut B,
-        mut flags: Flag,
+        flags: Flag,
         stream_id: StreamIdentifier,
+        stream_dep: Option<&StreamDependency>,
     ) -> WebResult<usize> {
-        let mut result = vec![];
-        let mut binary = BinaryMut::new();
+        let mut block = BinaryMut::new();
 
         // 伪头字段必须在普通字段之前
         let pseudo = self.fields.iter().filter(|v| v.0.is_spec());
         let regular = self.fields.iter().filter(|v| !v.0.is_spec());
         for value in pseudo.chain(regular) {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
-            }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
+            let _ = encoder.encode_header_into((&value.0, &value.1), &mut block);
         }
 
-        result.push(binary);
-        let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
-            }
+        let mut head = FrameHeader::new(Kind::Headers, flags & Flag::END_STREAM, stream_id);
+        let mut prefix = BinaryMut::new();
+        if let Some(dep) = stream_dep {
+            head.flag |= Flag::PRIORITY;
+            dep.encode(&mut prefix)?;
         }
-        Ok(size)
+        encode_block(head, prefix.chunk(), block.chunk(), encoder.max_frame_size, dst)
+    }
+}
+
+/// Writes a header block as the given frame, whose payload starts with
+/// `prefix`, followed by as many CONTINUATION frames as the frame size needs.
+fn encode_block<B: Bt + BtMut>(
+    mut head: FrameHeader,
+    prefix: &[u8],
+    mut block: &[u8],
+    max_frame_size: usize,
+    dst: &mut B,
+) -> WebResult<usize> {
+    let max_size = max_frame_size.max(1).min(MAX_MAX_FRAME_SIZE as usize);
+    let mut prefix = prefix;
+    let mut size = 0;
+    loop {
+        let now_len = block.len().min(max_size.saturating_sub(prefix.len()));
+        let (now, left) = block.split_at(now_len);
+        head.length = (prefix.len() + now_len) as u32;
+        if left.is_empty() {
+            head.flag.set_end_headers();
+        }
+        size += head.encode(dst)?;
+        size += dst.put_slice(prefix);
+        size += dst.put_slice(now);
+        if left.is_empty() {
+            return Ok(size);
+        }
+        prefix = &[];
+        block = left;
+        head = FrameHeader::new(Kind::Continuation, Flag::zero(), head.stream_id());
     }
 }
 
-- 
2.43.0


From 20435b14e28cafea90aba917667c4239932be92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 30/55] fix: read the header block of a PUSH_PROMISE

---
 src/http/http2/frame/headers.rs | 97 +++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index c20e6d9..4c9f654 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -137,41 +137,8 @@ impl Headers {
             self.stream_dep = Some(depency);
         }
 
-        let len = buffer.remaining();
-        let headers = decoder.decode(&mut buffer)?;
-        let mut header_size = 0;
-        for h in headers {
-            header_size += h.0.as_bytes().len() + h.1.as_bytes().len() + 32;
-            if header_size > max_header_list_size {
-                return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
-            }
-            if h.0.is_spec() {
-                let value: String = (&h.1).try_into()?;
-                match h.0.name() {
-                    ":authority" => {
-                        self.header_block.parts.authority = Some(value);
-                    }
-                    ":method" => {
-                        self.header_block.parts.method = Some(Method::try_from(&*value)?);
-                    }
-                    ":path" => {
-                        self.header_block.parts.path = Some(value);
-                    }
-                    ":scheme" => {
-                        self.header_block.parts.scheme = Some(Scheme::try_from(&*value)?);
-                    }
-                    ":status" => {
-                        self.header_block.parts.status = Some(StatusCode::try_from(&*value)?);
-                    }
-                    _ => {
-                        self.header_block.fields.insert(h.0, h.1);
-                    }
-                }
-            } else {
-                self.header_block.fields.insert(h.0, h.1);
-            }
-        }
-        Ok(len - buffer.remaining())
+        self.header_block
+            .load(&mut buffer, decoder, max_header_list_size)
     }
 
     pub fn stream_id(&self) -> StreamIdentifier {
@@ -447,13 +414,19 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        if promised_id.is_zero() {
+            return Err(Http2Error::InvalidStreamId.into());
+        }
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        push.header_block
+            .load(&mut src, decoder, max_header_list_size)?;
         Ok(push)
     }
 
@@ -603,6 +576,50 @@ impl Parts {
 }
 
 impl HeaderBlock {
+    /// Decodes a header block, which is the rest of the buffer.
+    fn load<B: Bt>(
+        &mut self,
+        buffer: &mut B,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
+    ) -> WebResult<usize> {
+        let len = buffer.remaining();
+        let headers = decoder.decode(buffer)?;
+        let mut header_size = 0;
+        for h in headers {
+            header_size += h.0.as_bytes().len() + h.1.as_bytes().len() + 32;
+            if header_size > max_header_list_size {
+                return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
+            }
+            if h.0.is_spec() {
+                let value: String = (&h.1).try_into()?;
+                match h.0.name() {
+                    ":authority" => {
+                        self.parts.authority = Some(value);
+                    }
+                    ":method" => {
+                        self.parts.method = Some(Method::try_from(&*value)?);
+                    }
+                    ":path" => {
+                        self.parts.path = Some(value);
+                    }
+                    ":scheme" => {
+                        self.parts.scheme = Some(Scheme::try_from(&*value)?);
+                    }
+                    ":status" => {
+                        self.parts.status = Some(StatusCode::try_from(&*value)?);
+                    }
+                    _ => {
+                        self.fields.insert(h.0, h.1);
+                    }
+                }
+            } else {
+                self.fields.insert(h.0, h.1);
+            }
+        }
+        Ok(len - buffer.remaining())
+    }
+
     pub fn encode<B: Bt + BtMut>(
         &mut self,
         encoder: &mut Encoder,
-- 
2.43.0


From 7586e9d7a534dd038a81a0ac929e1fd761b6f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 31/55] fix: a PUSH_PROMISE carries the whole promised request,
 split to the frame size

---
 src/http/http2/frame/headers.rs | 74 +++++++++++++++++----------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 4c9f654..63436dd 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -13,7 +13,7 @@
 use crate::{
     http::{request, response},
     http2::{DecoderError, MAX_MAX_FRAME_SIZE},
-    HeaderName, Request, Serialize,
+    Request,
 };
 use std::fmt;
 
@@ -435,39 +435,39 @@ impl PushPromise {
     }
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
-        let mut binary = BinaryMut::new();
+        // 有状态码时, 其余的头信息属于推送的响应
+        let is_response = self.header_block.parts.status.is_some();
         self.header_block
             .parts
             .encode_header(&mut self.header_block.fields);
 
-        if let Some(v) = self.header_block.fields.remove(&":method") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":method"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":authority") {
-            let _ = encoder
-                .encode_header_into((&HeaderName::from_static(":authority"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":scheme") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":scheme"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":path") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":path"), &v), &mut binary);
+        let mut request = HeaderBlock {
+            fields: HeaderMap::new(),
+            is_over_size: false,
+            parts: Parts::default(),
+        };
+        if is_response {
+            for name in [":method", ":authority", ":scheme", ":path"] {
+                if let Some(v) = self.header_block.fields.remove(&name) {
+                    request.fields.insert(name, v);
+                }
+            }
+        } else {
+            std::mem::swap(&mut request, &mut self.header_block);
         }
 
         let mut size = 0;
-        let mut head = FrameHeader::new(Kind::PushPromise, self.flags.into(), self.stream_id);
-        head.flag.set_end_headers();
-        head.length = binary.remaining() as u32 + 4;
-        size += head.encode(dst).unwrap();
-        size += self.promised_id.encode(dst).unwrap();
-        size += binary.serialize(dst).unwrap();
-
-        size += self
-            .header_block
-            .encode(encoder, dst, self.flags, self.promised_id, None)?;
+        let head = FrameHeader::new(Kind::PushPromise, Flag::zero(), self.stream_id);
+        let mut prefix = BinaryMut::new();
+        self.promised_id.encode(&mut prefix)?;
+        let block = request.encode_fields(encoder);
+        size += encode_block(head, prefix.chunk(), block.chunk(), encoder.max_frame_size, dst)?;
+
+        if is_response {
+            size += self
+                .header_block
+                .encode(encoder, dst, self.flags, self.promised_id, None)?;
+        }
         log::trace!("HTTP2: 编码推送信息; len={}", size);
         Ok(size)
     }
@@ -620,14 +620,7 @@ impl HeaderBlock {
         Ok(len - buffer.remaining())
     }
 
-    pub fn encode<B: Bt + BtMut>(
-        &mut self,
-        encoder: &mut Encoder,
-        dst: &mut B,
-        flags: Flag,
-        stream_id: StreamIdentifier,
-        stream_dep: Option<&StreamDependency>,
-    ) -> WebResult<usize> {
+    fn encode_fields(&self, encoder: &mut Encoder) -> BinaryMut {
         let mut block = BinaryMut::new();
 
         // 伪头字段必须在普通字段之前
@@ -636,7 +629,18 @@ impl HeaderBlock {
         for value in pseudo.chain(regular) {
             let _ = encoder.encode_header_into((&value.0, &value.1), &mut block);
         }
+        block
+    }
 
+    pub fn encode<B: Bt + BtMut>(
+        &mut self,
+        encoder: &mut Encoder,
+        dst: &mut B,
+        flags: Flag,
+        stream_id: StreamIdentifier,
+        stream_dep: Option<&StreamDependency>,
+    ) -> WebResult<usize> {
+        let block = self.encode_fields(encoder);
         let mut head = FrameHeader::new(Kind::Headers, flags & Flag::END_STREAM, stream_id);
         let mut prefix = BinaryMut::new();
         if let Some(dep) = stream_dep {
-- 
2.43.0


From 19df6e0069a23f677a3fb7589c4413a8cb73300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 32/55] fix: DATA frames stay within any frame size and claim
 no padding they lack

---
 src/http/http2/frame/data.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..1bb009d 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -12,7 +12,7 @@
 
 
 use algorithm::buf::{Bt, Binary, BtMut};
-use crate::{Serialize, WebResult, http2::encoder::Encoder};
+use crate::{Serialize, WebResult, http2::{encoder::Encoder, MAX_MAX_FRAME_SIZE}};
 
 use super::{Flag, FrameHeader, Kind, StreamIdentifier};
 
@@ -93,9 +93,12 @@ impl Data<Binary> {
     pub fn encode<B: Bt+BtMut>(&mut self,
         encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let mut size = 0;
+        let max_size = encoder.max_frame_size.max(1).min(MAX_MAX_FRAME_SIZE as usize);
+        // 没有写入填充, 也就不能带填充标志
+        let flags = self.flags & Flag::END_STREAM;
         loop {
-            let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
-            let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
+            let now_len = std::cmp::min(self.data.remaining(), max_size);
+            let mut head = FrameHeader::new(Kind::Data, flags, self.stream_id);
             head.length = now_len as u32;
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
-- 
2.43.0


From 0b91e30e8db3c30645a36390d00e00cbae3755b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 33/55] fix: a WebSocket frame's write_to reports the bytes it
 wrote

---
 src/ws/dataframe.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ws/dataframe.rs b/src/ws/dataframe.rs
index 9e92d5b..b5484d1 100644
--- a/src/ws/dataframe.rs
+++ b/src/ws/dataframe.rs
@@ -185,8 +185,7 @@ pub trait DataFrameable {
             }
             None => self.write_payload(&mut data)?,
         };
-        writer.put_slice(data.as_slice());
-        Ok(0)
+        Ok(writer.put_slice(data.as_slice()))
     }
 }
 
-- 
2.43.0


From 8b8299094d01bffdeb5f7604e7eb042013aea1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 34/55] fix: a WebSocket message is made of frames up to the
 final one

---
 src/ws/message.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ws/message.rs b/src/ws/message.rs
index a4bed4a..a6eaa5a 100644
--- a/src/ws/message.rs
+++ b/src/ws/message.rs
@@ -199,7 +199,13 @@ impl<'a> Message<'a> {
 
         let mut data = Vec::with_capacity(payload_size);
 
+        let last = frames.len() - 1;
         for (i, dataframe) in frames.into_iter().enumerate() {
+            if dataframe.is_last() != (i == last) {
+                return Err(
+                    WsError::ProtocolError("A message ends with its only final data frame").into(),
+                );
+            }
             if i > 0 && dataframe.opcode() != Opcode::Continuation as u8 {
                 return Err(
                     WsError::ProtocolError("Unexpected non-continuation data frame").into(),
-- 
2.43.0


From 5dfdb88b0f797a9e4023d5d413b399d6a80f735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 35/55] fix: a 64-bit WebSocket payload length has a zero top
 bit

---
 src/ws/frame_header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ws/frame_header.rs b/src/ws/frame_header.rs
index c7b1b28..51445f2 100644
--- a/src/ws/frame_header.rs
+++ b/src/ws/frame_header.rs
@@ -88,7 +88,8 @@ where
         }
         127 => {
             let len = reader.try_get_u64()?;
-            if len <= 65535 {
+            // the most significant bit must be 0 (RFC 6455 5.2)
+            if len <= 65535 || len > i64::MAX as u64 {
                 return Err(WsError::DataFrameError("Invalid data frame length").into());
             }
             len
-- 
2.43.0


From df5cf41e0c6902ed8bd7e3365805b5708b514464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 36/55] fix: OPTIONS may target the server as a whole with '*'

---
 src/http/request.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index f3f1408..6df9024 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -573,11 +573,18 @@ where
                 url
             }
             _ => {
-                // 此时请求头已完整, 不完整的路径即为非法路径
-                let mut url = Url::try_from(path).map_err(|e| match e.is_partial() {
-                    true => WebError::from(UrlError::UrlInvalid),
-                    false => e,
-                })?;
+                let mut url = if self.parts.method == Method::Options && path == "*" {
+                    // OPTIONS可针对整个服务器, 此时目标为'*'
+                    let mut url = Url::new();
+                    url.path = path;
+                    url
+                } else {
+                    // 此时请求头已完整, 不完整的路径即为非法路径
+                    Url::try_from(path).map_err(|e| match e.is_partial() {
+                        true => WebError::from(UrlError::UrlInvalid),
+                        false => e,
+                    })?
+                };
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From 612e909fefdc304deb11acb08ce4f0a1946987af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 37/55] fix: the authority of a URL may be an IPv6 literal

---
 src/url/url.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 9cf347e..0412f62 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -114,6 +114,7 @@ impl Url {
         let mut path = None;
         let mut query: Option<_> = None;
         let mut is_first_slash = false;
+        let mut in_bracket = false;
         let mut has_domain = true;
         if Helper::is_alpha(b) {
             scheme = Scheme::parse_scheme(&mut buffer)?;
@@ -140,6 +141,9 @@ impl Url {
             b = match peek!(buffer) {
                 Ok(v) => v,
                 Err(_) => {
+                    if in_bracket {
+                        return Err(WebError::from(UrlError::UrlInvalid));
+                    }
                     if path.is_some() {
                         query = Some(build_binary(&mut val));
                     } else if domain.is_some() {
@@ -159,8 +163,19 @@ impl Url {
                 }
             };
 
+            // IPv6地址在[]中, 其中的冒号不为端口号
+            if !is_first_slash && domain.is_none() {
+                if b == b'[' && val.is_empty() {
+                    in_bracket = true;
+                } else if b == b']' {
+                    in_bracket = false;
+                } else if in_bracket && matches!(b, b'/' | b'?' | b'@') {
+                    return Err(WebError::from(UrlError::UrlInvalid));
+                }
+            }
+
             // 存在用户名, 解析用户名
-            if b == b':' {
+            if b == b':' && !in_bracket {
                 //未存在协议头, 允许path与query, 忽略掉冒号
                 if !is_first_slash {
                     // 匹配域名, 如果在存在期间检测到@则把当前当作用户结尾
-- 
2.43.0


From 85a74bfacd66b8eca0bccd84aa4bb169201bd0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 38/55] fix: a URL may have a query directly after its
 authority

---
 src/url/url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 0412f62..1083280 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -209,9 +209,14 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    // 域名之后可直接为query, 此时path为空
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    is_first_slash = true;
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From 61467ee4bff9629d881928f6e084cf6c5d1a2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 39/55] fix: an empty port stands for the default port

---
 src/http/request.rs | 2 +-
 src/url/url.rs      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 6df9024..edd917d 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -541,7 +541,7 @@ where
         };
         let vec: Vec<&str> = h[end..].split(":").collect();
         let domain = format!("{}{}", &h[..end], vec[0]);
-        if vec.len() == 1 {
+        if vec.len() == 1 || (vec.len() == 2 && vec[1].is_empty()) {
             url.domain = Some(domain);
             url.port = Some(80);
         } else if vec.len() == 2 {
diff --git a/src/url/url.rs b/src/url/url.rs
index 1083280..9c2a3c4 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -244,7 +244,8 @@ impl Url {
             url.domain = Self::parse_url_token(&mut domain.unwrap(), true)?;
         }
         if port.is_some() {
-            let port = Self::parse_url_token(&mut port.unwrap(), true)?;
+            // 端口可为空, 等同于默认端口
+            let port = Self::parse_url_token(&mut port.unwrap(), true)?.filter(|p| !p.is_empty());
             if port.is_some() {
                 url.port = match port.unwrap().parse::<u16>() {
                     Ok(v) => Some(v),
-- 
2.43.0


From a619de1240503fbcc3116d9b2dfe7fd1141cd9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 40/55] fix: schemes are compared ignoring case

---
 src/url/scheme.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..9650c4e 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -139,7 +139,7 @@ impl TryFrom<&str> for Scheme {
         if value.len() > 64 {
             return Err(WebError::from(crate::UrlError::UrlInvalid));
         }
-        match value {
+        match &*value.to_ascii_lowercase() {
             "http" => Ok(Scheme::Http),
             "https" => Ok(Scheme::Https),
             "ws" => Ok(Scheme::Ws),
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(s)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6e3a4ab8d7c8cab9843b39a048c556ba4525585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 41/55] fix: header names and values that would change the
 message are not encoded

---
 src/http/header.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 642b300..b62d90b 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -10,7 +10,7 @@
 // -----
 // Created Date: 2023/08/14 05:20:35
 
-use crate::{HeaderName, HeaderValue, WebError, WebResult};
+use crate::{HeaderName, HeaderValue, Helper, HttpError, WebError, WebResult};
 use std::{
     borrow::Borrow,
     collections::HashMap,
@@ -287,6 +287,18 @@ impl HeaderMap {
     pub fn encode<B: Bt + BtMut>(&self, buffer: &mut B) -> WebResult<usize> {
         let mut size = 0;
         for value in self.iter() {
+            // 伪头部(如:method)仅存在于http2, 不出现在http1的头信息中
+            if value.0.is_spec() {
+                continue;
+            }
+            // 非法的名字或者值中的换行符会改变消息的结构
+            let name = value.0.as_bytes();
+            if name.is_empty() || !name.iter().all(|b| Helper::is_header_name_token(*b)) {
+                return Err(WebError::from(HttpError::HeaderName));
+            }
+            if !value.1.as_bytes().iter().all(|b| Helper::is_header_value_token(*b)) {
+                return Err(WebError::from(HttpError::HeaderValue));
+            }
             size += value.0.encode(buffer)?;
             size += buffer.put_slice(": ".as_bytes());
             size += value.1.encode(buffer)?;
-- 
2.43.0


From 25b9329f8ee46efd06e115b7528f32dad6f1bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 42/55] fix: an extension method that is no token is not
 encoded

---
 src/http/method.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index 3cb89c0..96e3319 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -12,7 +12,7 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use crate::{WebError, WebResult};
+use crate::{Helper, HttpError, WebError, WebResult};
 use algorithm::buf::{Bt, BtMut};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -108,6 +108,12 @@ impl Method {
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         match self {
             Method::None => Err(WebError::Serialize("method")),
+            // 自定义的方法必须为token, 否则会改变请求行的结构
+            Method::Extension(s)
+                if s.is_empty() || !s.bytes().all(Helper::is_header_name_token) =>
+            {
+                Err(WebError::Http(HttpError::Method))
+            }
             _ => Ok(buffer.put_slice(self.as_str().as_bytes())),
         }
     }
-- 
2.43.0


From 93236f5fb3fc503be581bde29f3dd721d45a5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 43/55] fix: a decoded host may not contain delimiters or
 controls

---
 src/url/url.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/url/url.rs b/src/url/url.rs
index 9c2a3c4..9deced4 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -242,6 +242,10 @@ impl Url {
         }
         if domain.is_some() {
             url.domain = Self::parse_url_token(&mut domain.unwrap(), true)?;
+            // 解码后的域名会出现在Host及CONNECT的目标中
+            if !url.domain.as_deref().map_or(true, Self::is_domain) {
+                return Err(WebError::from(UrlError::UrlInvalid));
+            }
         }
         if port.is_some() {
             // 端口可为空, 等同于默认端口
@@ -276,6 +280,17 @@ impl Url {
         Ok(url)
     }
 
+    /// 域名中不允许出现控制字符, 空白以及URL的分隔符, 仅[]中的IPv6地址可包含冒号
+    pub(crate) fn is_domain(val: &str) -> bool {
+        let (name, special): (_, &[u8]) =
+            match val.strip_prefix('[').and_then(|v| v.strip_suffix(']')) {
+                Some(ip) => (ip, b"/?#@\\[]"),
+                None => (val, b":/?#@\\[]%"),
+            };
+        name.bytes()
+            .all(|b| b > b' ' && b != 0x7F && !special.contains(&b))
+    }
+
     pub fn url_encode(val: &str) -> String {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity((1.2 * (bytes.len() as f32)) as usize);
-- 
2.43.0


From 7a7dea05d5189392d266f8d492797b7f70e23226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 44/55] fix: a CONNECT target that would change the request
 line is not encoded

---
 src/http/request.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index edd917d..7f89794 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -657,7 +657,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += buffer.put_slice(&self.encode_target());
+        size += buffer.put_slice(&self.encode_target()?);
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
@@ -666,10 +666,15 @@ where
     }
 
     /// 请求行中的目标地址, 解析时path与query已被解码, 输出时需重新编码
-    fn encode_target(&self) -> Vec<u8> {
+    fn encode_target(&self) -> WebResult<Vec<u8>> {
         let url = &self.parts.url;
         if let (Method::Connect, Some(connect)) = (&self.parts.method, url.get_connect_url()) {
-            return connect.into_bytes();
+            // 域名可能未经解析而直接设置, 不可改变请求行的结构
+            let valid = url.domain.as_deref().map_or(false, Url::is_domain);
+            if !valid || !connect.bytes().all(Helper::is_token) {
+                return Err(WebError::from(UrlError::UrlInvalid));
+            }
+            return Ok(connect.into_bytes());
         }
         let mut target = vec![];
         Self::encode_target_part(&mut target, &url.path, b"%#?");
@@ -677,7 +682,7 @@ where
             target.push(b'?');
             Self::encode_target_part(&mut target, query, b"%#");
         }
-        target
+        Ok(target)
     }
 
     fn encode_target_part(target: &mut Vec<u8>, val: &str, special: &[u8]) {
-- 
2.43.0


From ac86f291bcebfe9ece4f424ae069bcbf38ba0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 45/55] fix: an HTTP/2 :path or :authority may not change which
 host is asked

---
 src/http/http2/frame/headers.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 63436dd..6e27f95 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -561,16 +561,27 @@ impl Parts {
     }
 
     pub fn build_url(&self) -> WebResult<Url> {
-        if self.authority.is_none() {
+        let authority = match &self.authority {
+            // authority中不允许出现其它部分的分隔符, 否则会改变所请求的主机
+            Some(v) if !v.contains(&['/', '?', '#', '\\'][..]) => v,
+            _ => return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl)),
+        };
+        let path = self.path.as_deref().unwrap_or("/");
+        // OPTIONS可针对整个服务器, 此时path为'*'
+        let is_server = path == "*" && self.method == Some(Method::Options);
+        if !path.starts_with('/') && !is_server {
             return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
         }
         let url = format!(
             "{}://{}{}",
             self.scheme.as_ref().unwrap_or(&Scheme::Http),
-            self.authority.as_ref().unwrap(),
-            self.path.clone().unwrap_or("/".to_string())
+            authority,
+            if is_server { "/" } else { path }
         );
-        let url = Url::parse(url.into_bytes().to_vec())?;
+        let mut url = Url::parse(url.into_bytes().to_vec())?;
+        if is_server {
+            url.path = path.to_string();
+        }
         Ok(url)
     }
 }
-- 
2.43.0


From 3f26e12848cead3142cfd06c61a89c257eb6607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 46/55] fix: an HTTP/2 request made from a URL keeps its query,
 port and escapes

---
 src/http/http2/frame/headers.rs | 29 ++++++++++++++++++++++-------
 src/http/request.rs             | 20 +-------------------
 src/url/url.rs                  | 22 ++++++++++++++++++++++
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 6e27f95..87b5d45 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -493,23 +493,38 @@ impl fmt::Debug for PushPromise {
 // ===== impl parts =====
 
 impl Parts {
-    pub fn request(method: Method, uri: Url, protocol: Option<Scheme>) -> Self {
-        let path = uri.path;
+    pub fn request(method: Method, mut uri: Url, protocol: Option<Scheme>) -> Self {
+        // CONNECT仅有目标地址, 不存在scheme与path
+        if method == Method::Connect {
+            return Parts {
+                method: Some(method),
+                scheme: None,
+                authority: uri.get_connect_url().or(uri.domain),
+                path: None,
+                status: None,
+            };
+        }
+        // query属于:path的一部分, 均需重新编码
+        let path = String::from_utf8_lossy(&uri.encode_path_query()).to_string();
 
+        if uri.scheme == Scheme::None {
+            uri.scheme = protocol.unwrap_or(Scheme::None);
+        }
         let mut parts = Parts {
             method: Some(method),
-            scheme: protocol,
+            scheme: None,
             authority: None,
             path: Some(path).filter(|p| !p.is_empty()),
             status: None,
         };
 
-        if uri.scheme != Scheme::None {
-            parts.set_scheme(uri.scheme);
+        // 非默认的端口属于authority的一部分
+        if uri.domain.is_some() {
+            parts.set_authority(uri.get_authority());
         }
 
-        if let Some(authority) = uri.domain {
-            parts.set_authority(authority);
+        if uri.scheme != Scheme::None {
+            parts.set_scheme(uri.scheme);
         }
 
         parts
diff --git a/src/http/request.rs b/src/http/request.rs
index 7f89794..3ccbbc6 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -676,25 +676,7 @@ where
             }
             return Ok(connect.into_bytes());
         }
-        let mut target = vec![];
-        Self::encode_target_part(&mut target, &url.path, b"%#?");
-        if let Some(query) = &url.query {
-            target.push(b'?');
-            Self::encode_target_part(&mut target, query, b"%#");
-        }
-        Ok(target)
-    }
-
-    fn encode_target_part(target: &mut Vec<u8>, val: &str, special: &[u8]) {
-        for b in val.bytes() {
-            if Helper::is_token(b) && !special.contains(&b) {
-                target.push(b);
-            } else {
-                target.push(b'%');
-                target.push(Helper::to_hex(b / 16));
-                target.push(Helper::to_hex(b % 16));
-            }
-        }
+        Ok(url.encode_path_query())
     }
 
     pub fn replace_clone(&mut self, mut body: T) -> Request<T> {
diff --git a/src/url/url.rs b/src/url/url.rs
index 9deced4..10e1375 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -291,6 +291,28 @@ impl Url {
             .all(|b| b > b' ' && b != 0x7F && !special.contains(&b))
     }
 
+    /// 请求的path与query, 解析时已被解码, 输出时需重新编码
+    pub(crate) fn encode_path_query(&self) -> Vec<u8> {
+        fn encode_part(target: &mut Vec<u8>, val: &str, special: &[u8]) {
+            for b in val.bytes() {
+                if Helper::is_token(b) && !special.contains(&b) {
+                    target.push(b);
+                } else {
+                    target.push(b'%');
+                    target.push(Helper::to_hex(b / 16));
+                    target.push(Helper::to_hex(b % 16));
+                }
+            }
+        }
+        let mut target = vec![];
+        encode_part(&mut target, &self.path, b"%#?");
+        if let Some(query) = &self.query {
+            target.push(b'?');
+            encode_part(&mut target, query, b"%#");
+        }
+        target
+    }
+
     pub fn url_encode(val: &str) -> String {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity((1.2 * (bytes.len() as f32)) as usize);
-- 
2.43.0


From cc1a1ba614ad33b13f6c83ad635529f8cf545734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 47/55] hook: cfg(webparse_sim) exports frame::Parts for the
 simulator

---
 src/http/http2/frame/mod.rs | 2 ++
 src/lib.rs                  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index cf20fd7..e92e108 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -29,6 +29,8 @@ pub use data::Data;
 pub use flag::Flag;
 pub use frame::{Frame, PriorityFrame, Truncate};
 pub use headers::{Headers, PushPromise};
+#[cfg(webparse_sim)]
+pub use headers::Parts;
 pub use kind::Kind;
 pub use priority::{Priority, StreamDependency};
 
diff --git a/src/lib.rs b/src/lib.rs
index f213d1d..b1927f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,9 @@
 // -----
 // Created Date: 2023/08/14 04:49:33
 
+// webparse_sim: simulation only, never set by a normal build
+#![allow(unexpected_cfgs)]
+
 #[macro_use] extern crate bitflags;
 
 
-- 
2.43.0


From 7d8e0d46dd7070c9b7f532e32e56251d83eb27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 48/55] fix: a Cookie field split over several HTTP/2 fields
 keeps all its pieces

---
 src/http/http2/frame/headers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 87b5d45..00e5a1d 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -639,6 +639,12 @@ impl HeaderBlock {
                         self.fields.insert(h.0, h.1);
                     }
                 }
+            } else if h.0 == "cookie" && self.fields.contains(&"cookie") {
+                // HTTP/2允许将cookie拆成多个字段, 需用"; "重新连接
+                let mut value = self.fields.get_value(&"cookie").as_bytes().to_vec();
+                value.extend_from_slice(b"; ");
+                value.extend_from_slice(h.1.as_bytes());
+                self.fields.insert(h.0, crate::HeaderValue::from_bytes(&value));
             } else {
                 self.fields.insert(h.0, h.1);
             }
-- 
2.43.0


From f7ad59361bc104d56e214c8f3c8c9b5f0f2bbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 49/55] fix: an HTTP/2 :scheme may not change which host is
 asked

---
 src/http/http2/frame/headers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 00e5a1d..ddb1f09 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -581,6 +581,11 @@ impl Parts {
             Some(v) if !v.contains(&['/', '?', '#', '\\'][..]) => v,
             _ => return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl)),
         };
+        // scheme同样不允许出现其它部分的分隔符
+        let scheme = self.scheme.as_ref().unwrap_or(&Scheme::Http).as_str();
+        if scheme.is_empty() || !scheme.bytes().all(Scheme::is_scheme_token) {
+            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        }
         let path = self.path.as_deref().unwrap_or("/");
         // OPTIONS可针对整个服务器, 此时path为'*'
         let is_server = path == "*" && self.method == Some(Method::Options);
@@ -589,7 +594,7 @@ impl Parts {
         }
         let url = format!(
             "{}://{}{}",
-            self.scheme.as_ref().unwrap_or(&Scheme::Http),
+            scheme,
             authority,
             if is_server { "/" } else { path }
         );
-- 
2.43.0


From c44ebe7c66a93765ad28ec7ee00aa2dd0105e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 50/55] fix: a URL rendered as text reads as the same URL

---
 src/url/url.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 10e1375..d451d8a 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -398,27 +398,39 @@ impl Url {
 
 impl Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        // 除url_encode之外, 各部分自身的分隔符也需编码
+        fn encode_part(val: &str, special: &[(char, &str)]) -> String {
+            let val = Url::url_encode(val);
+            special.iter().fold(val, |v, (c, code)| v.replace(*c, code))
+        }
+        const USER_SPECIAL: &[(char, &str)] = &[(':', "%3A"), ('/', "%2F"), ('?', "%3F"), ('@', "%40")];
         if self.scheme != Scheme::None {
             f.write_fmt(format_args!("{}://", self.scheme))?;
         }
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                encode_part(self.username.as_deref().unwrap_or(""), USER_SPECIAL),
+                encode_part(self.password.as_deref().unwrap_or(""), USER_SPECIAL)
             ))?;
         }
-        if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+        for b in self.domain.as_deref().unwrap_or("").bytes() {
+            if Helper::is_token(b) && b != b'%' {
+                f.write_fmt(format_args!("{}", b as char))?;
+            } else {
+                f.write_fmt(format_args!("%{:02X}", b))?;
+            }
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
                 (Scheme::Http, Some(80)) => {}
                 (Scheme::Https, Some(443)) => {}
+                // 未知协议的默认端口
+                (Scheme::Extension(_), Some(0)) => {}
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_fmt(format_args!("{}", encode_part(&self.path, &[('?', "%3F")])))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 59a1c98401078ea2af4bac03b2a8e1d3fd8693ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 51/55] fix: a '#' or '\' before the path may not move the host
 of a URL

---
 src/url/url.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/url/url.rs b/src/url/url.rs
index d451d8a..1f6e52a 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -163,6 +163,11 @@ impl Url {
                 }
             };
 
+            // '#'与'\'在其它解析中为域名的结束, 此处接受则会指向不同的主机
+            if !is_first_slash && matches!(b, b'#' | b'\\') {
+                return Err(WebError::from(UrlError::UrlInvalid));
+            }
+
             // IPv6地址在[]中, 其中的冒号不为端口号
             if !is_first_slash && domain.is_none() {
                 if b == b'[' && val.is_empty() {
-- 
2.43.0


From 21f99e538ecfeac186cd48f3daa255a92317351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 52/55] fix: the unknown default port of an unregistered scheme
 is not part of the authority

---
 src/url/url.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/url/url.rs b/src/url/url.rs
index 1f6e52a..ec9e0ac 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -368,6 +368,8 @@ impl Url {
             match (&self.scheme, self.port) {
                 (Scheme::Http, Some(80)) => None,
                 (Scheme::Https, Some(443)) => None,
+                // 未知协议的默认端口
+                (Scheme::Extension(_), Some(0)) => None,
                 _ => Some(format!(":{}", self.port.as_ref().unwrap()).to_string()),
             }
         } else {
-- 
2.43.0


From e38309b144a129fcfc2528b4af3f97c746a98759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 53/55] fix: a promised request must not announce content,
 rather than must

---
 src/http/http2/frame/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index ddb1f09..43f5fa1 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -384,7 +384,7 @@ impl PushPromise {
         // The spec has some requirements for promised request headers
         // [https://httpwg.org/specs/rfc7540.html#PushRequests]
 
-        if req.get_body_len() == 0 {
+        if req.get_body_len() != 0 {
             return Err(Http2Error::PayloadLengthTooShort.into());
         }
         // "The server MUST include a method in the :method parts-header field
-- 
2.43.0


From 5bdc45339eadaf08d90e227a63f1653b4aea9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 54/55] fix: read the smallest signed number from a header
 value

---
 src/http/value.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index ffd9af1..9d53474 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -146,16 +146,18 @@ impl TryInto<isize> for &HeaderValue {
                         return Err(WebError::IntoError);
                     }
                     let digit = (b - Helper::DIGIT_0) as isize;
-                    match result.checked_mul(10).and_then(|u| u.checked_add(digit)) {
+                    // 负数向下累计, 否则最小值会溢出
+                    let next = if is_neg {
+                        result.checked_mul(10).and_then(|u| u.checked_sub(digit))
+                    } else {
+                        result.checked_mul(10).and_then(|u| u.checked_add(digit))
+                    };
+                    match next {
                         Some(u) => result = u,
                         None => return Err(WebError::IntoError),
                     }
                 }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+                Ok(result)
             }
         }
     }
-- 
2.43.0


From 4d8493e1c361a55b9e2c9990e90a47fc81e5b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 55/55] fix: read the error code that was sent

---
 src/http/http2/frame/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index e92e108..9c6cfd4 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -175,8 +175,7 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0

