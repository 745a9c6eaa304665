From 4829f7963ba34ffd589c3b2981900edd338a2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 01/27] fix: SET answers null when its NX or XX condition is
 not met

---
 component/server/src/cmd/base/set.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index e621fa1..a11c39a 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -31,6 +31,7 @@ impl Set {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
+        let nx_xx = self.nx_xx;
         let res = db.set(dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
@@ -44,8 +45,12 @@ impl Set {
             },
             nx_xx: self.nx_xx,
         })?;
+        let missing = matches!(res, DataType::Null);
         let response = if get {
             data_type_to_frame(res)
+        } else if (nx_xx.is_nx() && !missing) || (nx_xx.is_xx() && missing) {
+            // the condition was not met
+            Frame::Null
         } else {
             // async drop
             tokio::spawn(async { res });
-- 
2.43.0


From ebbbb0c83e14754b575a90afd2dd4e929318b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 02/27] fix: SET does not return the value of an expired key

---
 component/dict/src/cmd/simple/set.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 95acf2d..3bcf567 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -1,4 +1,7 @@
-use common::options::{ExpiresAt, NxXx};
+use common::{
+    now_timestamp_ms,
+    options::{ExpiresAt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -55,7 +58,9 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
                 (old, ExpiresStatus::None)
             };
             return Ok(ExpiresOpResp {
-                payload: old.map_or(DataType::Null, |v| v.data),
+                payload: old
+                    .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+                    .map_or(DataType::Null, |v| v.data),
                 expires_status,
             });
         }
-- 
2.43.0


From 78545fac43f247c3fe445ec0972ea02be46462a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 03/27] fix: SET with GET on a collection is refused without
 overwriting it

---
 component/server/src/cmd/base/set.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index a11c39a..81ab2e4 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -32,6 +32,16 @@ impl Set {
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
         let nx_xx = self.nx_xx;
+        if get {
+            // GET of a value that is not a string is an error, and an error must not change it
+            if let DataType::Kvp(_) | DataType::Deque(_) | DataType::Set(_) | DataType::SortedSet(_) =
+                db.get(dict::cmd::simple::get::Req { key: &self.key })?
+            {
+                return Err(
+                    "WRONGTYPE Operation against a key holding the wrong kind of value".into(),
+                );
+            }
+        }
         let res = db.set(dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
-- 
2.43.0


From fe28a072d2c9071f954175fa45fe707a52ab670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 04/27] fix: increments that overflow are an error and change
 nothing

---
 component/dict/src/cmd/kvp/incr.rs    | 4 +++-
 component/dict/src/cmd/simple/incr.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/kvp/incr.rs b/component/dict/src/cmd/kvp/incr.rs
index feb7c7d..5c568c0 100644
--- a/component/dict/src/cmd/kvp/incr.rs
+++ b/component/dict/src/cmd/kvp/incr.rs
@@ -35,7 +35,9 @@ impl<D: Dict> Write<i64, D> for Req {
             DataType::Kvp(ref mut kvp) => {
                 if let Some(s) = kvp.get_mut(&self.field) {
                     let old: i64 = (&*s).try_into()?;
-                    let new = old + self.value;
+                    let new = old
+                        .checked_add(self.value)
+                        .ok_or("ERR increment or decrement would overflow")?;
                     *s = DataType::Integer(new);
                     Ok(new)
                 } else {
diff --git a/component/dict/src/cmd/simple/incr.rs b/component/dict/src/cmd/simple/incr.rs
index cd1e5bb..a5948b0 100644
--- a/component/dict/src/cmd/simple/incr.rs
+++ b/component/dict/src/cmd/simple/incr.rs
@@ -27,7 +27,9 @@ impl<D: Dict> Write<i64, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<i64> {
         if let Some(v) = dict.get(&self.key) {
             let old: i64 = (&v.data).try_into()?;
-            let new = old + self.value;
+            let new = old
+                .checked_add(self.value)
+                .ok_or("ERR increment or decrement would overflow")?;
             v.data = DataType::Integer(new);
             Ok(new)
         } else {
-- 
2.43.0


From 8785fe65ffea84c737c9b30e66f14aa73de1e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 05/27] fix: DECRBY by the smallest integer is an error

---
 component/server/src/cmd/base/decrby.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/component/server/src/cmd/base/decrby.rs b/component/server/src/cmd/base/decrby.rs
index 8108612..99954ad 100644
--- a/component/server/src/cmd/base/decrby.rs
+++ b/component/server/src/cmd/base/decrby.rs
@@ -10,20 +10,25 @@ pub struct Decrby {
     pub value: i64,
 }
 
-impl From<Decrby> for dict::cmd::simple::incr::Req {
+impl TryFrom<Decrby> for dict::cmd::simple::incr::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Decrby) -> Self {
-        Self {
+    fn try_from(old: Decrby) -> Result<Self, Self::Error> {
+        Ok(Self {
             key: old.key,
-            value: -old.value,
-        }
+            value: old
+                .value
+                .checked_neg()
+                .ok_or("ERR decrement would overflow")?,
+        })
     }
 }
 
 impl Decrby {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let response = db.incr(self.into())?;
+        let response = db.incr(self.try_into()?)?;
         Ok(Frame::Integer(response))
     }
 }
-- 
2.43.0


From ec0e0fbd36375546d536bd9f4c92536f40dd7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 06/27] fix: integers must be the whole token

---
 component/common/src/connection/parse/mod.rs |  4 +---
 component/common/src/lib.rs                  | 13 +++++++++++++
 component/dict/src/data_type/mod.rs          |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index 011a946..a3b6fc5 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -147,8 +147,6 @@ impl<'a> Parse<'a> {
     /// returned.
     #[inline]
     pub fn next_int(&self) -> Result<i64, ParseError> {
-        use atoi::atoi;
-
         const INVALID: &str = "protocol error; invalid number";
 
         match self.next_frame()? {
@@ -157,7 +155,7 @@ impl<'a> Parse<'a> {
             // Simple and bulk frames must be parsed as integers. If the parsing
             // fails, an error is returned.
             Frame::Bulk(data) | Frame::Simple(data) => {
-                atoi::<i64>(data).map_or_else(|| Err(INVALID.into()), Ok)
+                crate::parse_i64(data).map_or_else(|| Err(INVALID.into()), Ok)
             }
             frame => Err(format!("protocol error; expected int frame but got {:?}", frame).into()),
         }
diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index cc86f9a..0a5cc8a 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -18,6 +18,7 @@ use std::{
     time::{SystemTime, UNIX_EPOCH},
 };
 
+use atoi::FromRadix10SignedChecked;
 use serde::{Deserialize, Serialize};
 pub trait BoundExt<T> {
     fn map<O, F: FnOnce(T) -> O>(self, f: F) -> Bound<O>;
@@ -49,6 +50,18 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// parse `data` as a decimal i64, all of it
+#[inline]
+#[must_use]
+pub fn parse_i64(data: &[u8]) -> Option<i64> {
+    match i64::from_radix_10_signed_checked(data) {
+        (Some(i), used) if used > 0 && used == data.len() && data[used - 1].is_ascii_digit() => {
+            Some(i)
+        }
+        _ => None,
+    }
+}
+
 pub trait ParseSerdeType<'de, T: Deserialize<'de> + Serialize> {
     fn parse_serde_type(&self) -> T;
 }
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 893e199..11a683a 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => atoi::atoi::<i64>(b)
+            DataType::String(b) | DataType::Bytes(b) => common::parse_i64(b)
                 .ok_or_else::<Self::Error, _>(|| {
                     "value is not an integer or out of range".into()
                 })?,
-- 
2.43.0


From 4853d40f5ee4d1802abffa60266c329a84892fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 07/27] fix: a length or integer on the wire must be entirely a
 decimal number

---
 component/common/src/connection/parse/frame.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index b37a839..f5ef337 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -6,7 +6,7 @@ use std::{convert::TryFrom, fmt, vec};
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_while, take_while1, take_while_m_n},
-    combinator::map,
+    combinator::map_opt,
     sequence::delimited,
 };
 
@@ -106,9 +106,7 @@ fn parse_error(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, int) = delimited(
         tag(":"),
-        map(take_while1(|c| c != b'\r' && c != b'\n'), |int: &[u8]| {
-            atoi::atoi::<i64>(int).unwrap_or(0)
-        }),
+        map_opt(take_while1(|c| c != b'\r' && c != b'\n'), crate::parse_i64),
         tag(b"\r\n"),
     )(i)?;
     Ok((i, Frame::Integer(int)))
@@ -117,9 +115,7 @@ fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("$")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), crate::parse_i64)(i)?;
     let (i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
@@ -134,9 +130,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), crate::parse_i64)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
-- 
2.43.0


From 4e0a8606e513e904d71a72c4be3eb5b13cc3883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 08/27] fix: arrays nested too deep are a protocol error
 instead of a stack overflow

---
 .../common/src/connection/parse/frame.rs      | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index f5ef337..a7d253b 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -127,9 +127,18 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     }
 }
 
+/// arrays nested deeper than this are refused
+const MAX_DEPTH: usize = 128;
+
 #[inline]
-fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
+    if depth >= MAX_DEPTH {
+        return Err(nom::Err::Failure(nom::error::Error::new(
+            i,
+            nom::error::ErrorKind::TooLarge,
+        )));
+    }
     let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), crate::parse_i64)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
@@ -137,7 +146,7 @@ fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     } else {
         let mut res = vec![];
         for _ in 0..len {
-            let (ni, f) = parse_alt(i)?;
+            let (ni, f) = parse_nested(i, depth + 1)?;
             res.push(f);
             i = ni;
         }
@@ -157,12 +166,16 @@ fn parse_ping(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 /// parse failed
 #[inline]
 fn parse_alt(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+    parse_nested(i, 0)
+}
+
+fn parse_nested(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     alt((
         parse_simple,
         parse_error,
         parse_int,
         parse_bulk,
-        parse_array,
+        |i| parse_array(i, depth),
         parse_ping,
     ))(i)
 }
-- 
2.43.0


From 5fe66a5ade8841e227bb22b25bf27526b656603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 09/27] fix: text with line breaks is never written as more
 than one reply

---
 .../common/src/connection/parse/frame.rs      | 76 +++++++++----------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index a7d253b..802d5b1 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -194,54 +194,52 @@ pub fn parse(i: &[u8]) -> crate::Result<Option<(usize, Frame)>> {
     }
 }
 
+const fn is_line_break(c: u8) -> bool {
+    c == b'\r' || c == b'\n'
+}
+
+fn write_bulk(b: &[u8], res: &mut Vec<u8>) {
+    res.push(b'$');
+    res.extend_from_slice(b.len().to_string().as_bytes());
+    res.extend_from_slice(b"\r\n");
+    res.extend_from_slice(b);
+    res.extend_from_slice(b"\r\n");
+}
+
+/// a simple string can't contain line breaks, such text is written as bulk
+fn write_simple(a: &[u8], res: &mut Vec<u8>) {
+    if a.iter().any(|c| is_line_break(*c)) {
+        write_bulk(a, res);
+        return;
+    }
+    res.push(b'+');
+    res.extend_from_slice(a);
+    res.extend_from_slice(b"\r\n");
+}
+
+/// an error can't contain line breaks, they are written as spaces
+fn write_error(a: &[u8], res: &mut Vec<u8>) {
+    res.push(b'-');
+    res.extend(a.iter().map(|c| if is_line_break(*c) { b' ' } else { *c }));
+    res.extend_from_slice(b"\r\n");
+}
+
 impl Frame<'_> {
     #[inline]
     pub fn write(&self, res: &mut Vec<u8>) {
         match self {
-            Frame::Simple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedStringSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a.as_bytes());
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::Error(a) => {
-                res.push(b'-');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedError(a) => {
-                res.push(b'-');
-                res.extend_from_slice(a.as_bytes());
-                res.extend_from_slice(b"\r\n");
-            }
+            Frame::Simple(a) => write_simple(a, res),
+            Frame::OwnedSimple(a) => write_simple(a, res),
+            Frame::OwnedStringSimple(a) => write_simple(a.as_bytes(), res),
+            Frame::Error(a) => write_error(a, res),
+            Frame::OwnedError(a) => write_error(a.as_bytes(), res),
             Frame::Integer(a) => {
                 res.push(b':');
                 res.extend_from_slice(a.to_string().as_bytes());
                 res.extend_from_slice(b"\r\n");
             }
-            Frame::Bulk(b) => {
-                res.push(b'$');
-                res.extend_from_slice(b.len().to_string().as_bytes());
-                res.extend_from_slice(b"\r\n");
-                res.extend_from_slice(b);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedBulk(b) => {
-                res.push(b'$');
-                res.extend_from_slice(b.len().to_string().as_bytes());
-                res.extend_from_slice(b"\r\n");
-                res.extend_from_slice(b);
-                res.extend_from_slice(b"\r\n");
-            }
+            Frame::Bulk(b) => write_bulk(b, res),
+            Frame::OwnedBulk(b) => write_bulk(b, res),
             Frame::Null => res.extend_from_slice(b"$-1\r\n"),
             Frame::Array(a) => {
                 res.push(b'*');
-- 
2.43.0


From 97f06b037623ab79f002dcac822630fcdcd238ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 10/27] fix: an empty hash tag does not select the slot

---
 component/db/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index caf9b76..f599415 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -81,7 +81,10 @@ impl Db {
     fn get_slot(&self, mut key: &[u8]) -> &Slot {
         if let Some(begin) = key.iter().position(|t| *t == b'{') {
             if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
-                key = &key[begin + 1..begin + end];
+                // an empty tag doesn't count
+                if end > 1 {
+                    key = &key[begin + 1..begin + end];
+                }
             }
         }
         let i = CRC_HASH.checksum(key) & SIZE_MOD;
-- 
2.43.0


From 6df6860a97cae6947afa4e60b49c5d77d419eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 11/27] fix: EXPIRE XX LT does not give a deadline to a key
 without one

---
 component/dict/src/cmd/simple/expire.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/component/dict/src/cmd/simple/expire.rs b/component/dict/src/cmd/simple/expire.rs
index 11e1735..be8d013 100644
--- a/component/dict/src/cmd/simple/expire.rs
+++ b/component/dict/src/cmd/simple/expire.rs
@@ -38,11 +38,8 @@ impl<D: Dict> ExpiresOp<bool, D> for Req {
                     {
                         true
                     }
-                    (NxXx::Xx | NxXx::None, GtLt::Lt)
-                        if v.expires_at == 0 || v.expires_at > self.expires_at =>
-                    {
-                        true
-                    }
+                    (NxXx::None, GtLt::Lt) if v.expires_at == 0 => true,
+                    (NxXx::Xx | NxXx::None, GtLt::Lt) if v.expires_at > self.expires_at => true,
                     (NxXx::Xx, GtLt::None) if v.expires_at > 0 => true,
                     _ => false,
                 };
-- 
2.43.0


From aeabfba3fe9ebb09c91d8bf806f81f6798366ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 12/27] fix: DEL and OBJECT do not see an expired key

---
 component/dict/src/cmd/simple/del.rs                 | 6 +++++-
 component/dict/src/cmd/simple/get_last_visit_time.rs | 7 ++++++-
 component/dict/src/cmd/simple/get_visit_times.rs     | 7 ++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/component/dict/src/cmd/simple/del.rs b/component/dict/src/cmd/simple/del.rs
index 7d69ac8..14ef1b4 100644
--- a/component/dict/src/cmd/simple/del.rs
+++ b/component/dict/src/cmd/simple/del.rs
@@ -1,3 +1,4 @@
+use common::now_timestamp_ms;
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -37,8 +38,11 @@ impl<D: Dict> ExpiresOp<Option<Value>, D> for Req {
                     ExpiresStatus::None
                 };
 
+                // an expired value is removed as well, but it did not exist
+                let payload =
+                    Some(v).filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms());
                 ExpiresOpResp {
-                    payload: Some(v),
+                    payload,
                     expires_status,
                 }
             },
diff --git a/component/dict/src/cmd/simple/get_last_visit_time.rs b/component/dict/src/cmd/simple/get_last_visit_time.rs
index f45bce2..3e33f66 100644
--- a/component/dict/src/cmd/simple/get_last_visit_time.rs
+++ b/component/dict/src/cmd/simple/get_last_visit_time.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,10 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+        {
             return Ok(Some(v.get_last_visit_time() * 10));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/get_visit_times.rs b/component/dict/src/cmd/simple/get_visit_times.rs
index 6b92065..2c4e1df 100644
--- a/component/dict/src/cmd/simple/get_visit_times.rs
+++ b/component/dict/src/cmd/simple/get_visit_times.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,10 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+        {
             return Ok(Some(v.get_visit_times()));
         }
         Ok(None)
-- 
2.43.0


From 8793ca7a3287c03b40f204686e31e3ea2a291d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 13/27] fix: background expiry removes expired keys and does
 not count as an access

---
 component/db/src/expire.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index b36062a..80e06fc 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -153,7 +153,7 @@ impl Expiration {
                     None => continue,
                 };
                 debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
-                let res = match dict.get(&entry.key) {
+                let res = match dict.raw_get(&entry.key) {
                     // 如果过期时间更新过，可能会有时间不一样的情况
                     Some(value) if value.expires_at == entry.expires_at => {
                         Some(dict.remove(&entry.key))
@@ -182,7 +182,7 @@ pub fn scan_all(db: &Db) {
             None => return false,
         };
         // 只保留key存在，且过期时间能对上的记录
-        matches!(dict.get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
+        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
     });
 }
 
-- 
2.43.0


From de0949bda979e41df97f66698317ddd31aaa3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 14/27] fix: expiry times are checked instead of wrapping
 around

---
 component/common/src/lib.rs                   | 40 +++++++++++++++++++
 .../common/src/options/set_cmd_expires.rs     | 16 ++++----
 component/server/src/cmd/base/expire.rs       |  6 +--
 component/server/src/cmd/base/expireat.rs     |  5 ++-
 component/server/src/cmd/base/pexpire.rs      |  6 +--
 component/server/src/cmd/base/pexpireat.rs    |  5 ++-
 component/server/src/cmd/base/psetex.rs       | 17 ++++----
 component/server/src/cmd/base/set.rs          | 19 ++++++---
 component/server/src/cmd/base/setex.rs        | 17 ++++----
 component/server/src/cmd/others/restore.rs    | 13 +++---
 10 files changed, 100 insertions(+), 44 deletions(-)

diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index 0a5cc8a..e661d2b 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -50,6 +50,46 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// the unix timestamp (ms) that is `time` units of `unit` ms after `base`
+///
+/// # Errors
+/// it doesn't fit
+#[inline]
+#[allow(clippy::cast_possible_wrap)]
+pub fn deadline_ms(base: u64, time: i64, unit: i64) -> Result<i64> {
+    match time.checked_mul(unit) {
+        Some(ms) => match ms.checked_add(base as i64) {
+            Some(at) => Ok(at),
+            None => Err("ERR invalid expire time".into()),
+        },
+        None => Err("ERR invalid expire time".into()),
+    }
+}
+
+/// deadline for EXPIRE and its variants, one that is not in the future expires the key at once
+///
+/// # Errors
+/// it doesn't fit
+#[inline]
+#[allow(clippy::cast_sign_loss)]
+pub fn expire_deadline(base: u64, time: i64, unit: i64) -> Result<u64> {
+    // 0 would mean no deadline
+    Ok(deadline_ms(base, time, unit)?.max(1) as u64)
+}
+
+/// deadline for SET and its variants
+///
+/// # Errors
+/// `time` is not positive or the deadline doesn't fit
+#[inline]
+#[allow(clippy::cast_sign_loss)]
+pub fn set_deadline(base: u64, time: i64, unit: i64) -> Result<u64> {
+    if time <= 0 {
+        return Err("ERR invalid expire time".into());
+    }
+    Ok(deadline_ms(base, time, unit)? as u64)
+}
+
 /// parse `data` as a decimal i64, all of it
 #[inline]
 #[must_use]
diff --git a/component/common/src/options/set_cmd_expires.rs b/component/common/src/options/set_cmd_expires.rs
index 0189514..0abc2f7 100644
--- a/component/common/src/options/set_cmd_expires.rs
+++ b/component/common/src/options/set_cmd_expires.rs
@@ -2,10 +2,10 @@ use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Clone, Serialize, Deserialize, Copy)]
 pub enum SetCmdExpires {
-    Ex(u64),
-    Px(u64),
-    Exat(u64),
-    Pxat(u64),
+    Ex(i64),
+    Px(i64),
+    Exat(i64),
+    Pxat(i64),
     Keepttl,
     None,
 }
@@ -26,10 +26,10 @@ impl SetCmdExpires {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "ex" => Some(Self::Ex(parse.next_int()? as _)),
-            "px" => Some(Self::Px(parse.next_int()? as _)),
-            "exat" => Some(Self::Exat(parse.next_int()? as _)),
-            "pxat" => Some(Self::Pxat(parse.next_int()? as _)),
+            "ex" => Some(Self::Ex(parse.next_int()?)),
+            "px" => Some(Self::Px(parse.next_int()?)),
+            "exat" => Some(Self::Exat(parse.next_int()?)),
+            "pxat" => Some(Self::Pxat(parse.next_int()?)),
             "keepttl" => Some(Self::Keepttl),
             _ => None,
         };
diff --git a/component/server/src/cmd/base/expire.rs b/component/server/src/cmd/base/expire.rs
index 5fbd4e1..afd5caa 100644
--- a/component/server/src/cmd/base/expire.rs
+++ b/component/server/src/cmd/base/expire.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    now_timestamp_ms,
+    expire_deadline, now_timestamp_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -13,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expire<'a> {
     pub key: &'a [u8],
-    pub seconds: u64,
+    pub seconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +25,7 @@ impl Expire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.seconds * 1000 + now_timestamp_ms(),
+            expires_at: expire_deadline(now_timestamp_ms(), self.seconds, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/expireat.rs b/component/server/src/cmd/base/expireat.rs
index 1e9cb90..a6431a2 100644
--- a/component/server/src/cmd/base/expireat.rs
+++ b/component/server/src/cmd/base/expireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expireat<'a> {
     pub key: &'a [u8],
-    pub timestamp: u64,
+    pub timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Expireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.timestamp * 1000,
+            expires_at: expire_deadline(0, self.timestamp, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpire.rs b/component/server/src/cmd/base/pexpire.rs
index 3b48f8d..896c584 100644
--- a/component/server/src/cmd/base/pexpire.rs
+++ b/component/server/src/cmd/base/pexpire.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    now_timestamp_ms,
+    expire_deadline, now_timestamp_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -13,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpire<'a> {
     pub key: &'a [u8],
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +25,7 @@ impl Pexpire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds + now_timestamp_ms(),
+            expires_at: expire_deadline(now_timestamp_ms(), self.milliseconds, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpireat.rs b/component/server/src/cmd/base/pexpireat.rs
index 6b32d57..f570e20 100644
--- a/component/server/src/cmd/base/pexpireat.rs
+++ b/component/server/src/cmd/base/pexpireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpireat<'a> {
     pub key: &'a [u8],
-    pub milliseconds_timestamp: u64,
+    pub milliseconds_timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Pexpireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds_timestamp,
+            expires_at: expire_deadline(0, self.milliseconds_timestamp, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/psetex.rs b/component/server/src/cmd/base/psetex.rs
index e21ddae..701b07d 100644
--- a/component/server/src/cmd/base/psetex.rs
+++ b/component/server/src/cmd/base/psetex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    set_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,28 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Psetex {
     pub key: Key,
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     pub value: DataType,
 }
 
-impl From<Psetex> for dict::cmd::simple::set::Req {
+impl TryFrom<Psetex> for dict::cmd::simple::set::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Psetex) -> Self {
-        Self {
+    fn try_from(old: Psetex) -> Result<Self, Self::Error> {
+        Ok(Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.milliseconds),
+            expires_at: ExpiresAt::Specific(set_deadline(now_timestamp_ms(), old.milliseconds, 1)?),
             nx_xx: NxXx::None,
-        }
+        })
     }
 }
 
 impl Psetex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(self.try_into()?)?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index 81ab2e4..299ee20 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -2,6 +2,7 @@ use common::{
     connection::parse::frame::Frame,
     now_timestamp_ms,
     options::{ExpiresAt, NxXx, SetCmdExpires},
+    set_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -34,8 +35,10 @@ impl Set {
         let nx_xx = self.nx_xx;
         if get {
             // GET of a value that is not a string is an error, and an error must not change it
-            if let DataType::Kvp(_) | DataType::Deque(_) | DataType::Set(_) | DataType::SortedSet(_) =
-                db.get(dict::cmd::simple::get::Req { key: &self.key })?
+            if let DataType::Kvp(_)
+            | DataType::Deque(_)
+            | DataType::Set(_)
+            | DataType::SortedSet(_) = db.get(dict::cmd::simple::get::Req { key: &self.key })?
             {
                 return Err(
                     "WRONGTYPE Operation against a key holding the wrong kind of value".into(),
@@ -46,10 +49,14 @@ impl Set {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
-                SetCmdExpires::Ex(e) => ExpiresAt::Specific(now_timestamp_ms() + e * 1000),
-                SetCmdExpires::Px(e) => ExpiresAt::Specific(now_timestamp_ms() + e),
-                SetCmdExpires::Exat(e) => ExpiresAt::Specific(e * 1000),
-                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
+                SetCmdExpires::Ex(e) => {
+                    ExpiresAt::Specific(set_deadline(now_timestamp_ms(), e, 1000)?)
+                }
+                SetCmdExpires::Px(e) => {
+                    ExpiresAt::Specific(set_deadline(now_timestamp_ms(), e, 1)?)
+                }
+                SetCmdExpires::Exat(e) => ExpiresAt::Specific(set_deadline(0, e, 1000)?),
+                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(set_deadline(0, e, 1)?),
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
diff --git a/component/server/src/cmd/base/setex.rs b/component/server/src/cmd/base/setex.rs
index a771bd2..6ff7414 100644
--- a/component/server/src/cmd/base/setex.rs
+++ b/component/server/src/cmd/base/setex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    set_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,28 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Setex {
     pub key: Key,
-    pub seconds: u64,
+    pub seconds: i64,
     pub value: DataType,
 }
 
-impl From<Setex> for dict::cmd::simple::set::Req {
+impl TryFrom<Setex> for dict::cmd::simple::set::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Setex) -> Self {
-        Self {
+    fn try_from(old: Setex) -> Result<Self, Self::Error> {
+        Ok(Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.seconds * 1000),
+            expires_at: ExpiresAt::Specific(set_deadline(now_timestamp_ms(), old.seconds, 1000)?),
             nx_xx: NxXx::None,
-        }
+        })
     }
 }
 
 impl Setex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(self.try_into()?)?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 6ff2735..034bb76 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{Freq, IdleTime},
+    set_deadline,
 };
 use db::Db;
 use macros::ParseFrames;
@@ -11,7 +12,7 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Restore<'a> {
     pub key: &'a [u8],
-    pub ttl: u64,
+    pub ttl: i64,
     pub serialized_value: &'a [u8],
     pub replace: bool,
     pub absttl: bool,
@@ -24,12 +25,12 @@ pub struct Restore<'a> {
 impl Restore<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let ttl = if self.absttl {
-            self.ttl
-        } else if self.ttl > 0 {
-            now_timestamp_ms() + self.ttl
-        } else {
+        let ttl = if self.ttl == 0 {
             0
+        } else if self.absttl {
+            set_deadline(0, self.ttl, 1)?
+        } else {
+            set_deadline(now_timestamp_ms(), self.ttl, 1)?
         };
         db.restore(dict::cmd::server::restore::Req {
             key: self.key,
-- 
2.43.0


From 7c9c31584e8aa4b6c7c53584796f7da261511efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 15/27] fix: a key whose collection becomes empty is removed

---
 component/dict/src/cmd/deque/pop.rs                    |  4 ++++
 component/dict/src/cmd/kvp/del.rs                      | 10 ++++++----
 component/dict/src/cmd/set/remove.rs                   | 10 ++++++----
 component/dict/src/cmd/sorted_set/add.rs               |  9 +++++++--
 component/dict/src/cmd/sorted_set/remove.rs            | 10 ++++++----
 .../dict/src/cmd/sorted_set/remove_by_lex_range.rs     |  4 ++++
 .../dict/src/cmd/sorted_set/remove_by_rank_range.rs    |  4 ++++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs   |  4 ++++
 8 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/component/dict/src/cmd/deque/pop.rs b/component/dict/src/cmd/deque/pop.rs
index 439dbde..01b013f 100644
--- a/component/dict/src/cmd/deque/pop.rs
+++ b/component/dict/src/cmd/deque/pop.rs
@@ -33,6 +33,10 @@ impl<D: Dict> Write<Vec<DataType>, D> for Req {
                     let len = deque.len();
                     deque.drain(len - count..).rev().collect()
                 };
+                // an empty collection doesn't exist
+                if deque.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/kvp/del.rs b/component/dict/src/cmd/kvp/del.rs
index 20e330f..2d87c3b 100644
--- a/component/dict/src/cmd/kvp/del.rs
+++ b/component/dict/src/cmd/kvp/del.rs
@@ -36,10 +36,12 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for f in self.fields {
                     kvp.remove(&f);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: kvp.len(),
-                })
+                let new_len = kvp.len();
+                // an empty collection doesn't exist
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             };
diff --git a/component/dict/src/cmd/set/remove.rs b/component/dict/src/cmd/set/remove.rs
index d803f48..3bd54e7 100644
--- a/component/dict/src/cmd/set/remove.rs
+++ b/component/dict/src/cmd/set/remove.rs
@@ -35,10 +35,12 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for ref m in self.members {
                     set.remove(m);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: set.len(),
-                })
+                let new_len = set.len();
+                // an empty collection doesn't exist
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 92659bd..f99b6d6 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -40,7 +40,7 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
-        let old = dict.get_or_insert_with(self.key, || Value {
+        let old = dict.get_or_insert_with(self.key.clone(), || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
             visit_log: Value::new_visit_log(),
@@ -76,10 +76,15 @@ impl<D: Dict> Write<Resp, D> for Req {
                     sorted_set.value.insert(node);
                 }
             }
+            let new_len = sorted_set.hash.len();
+            // nothing was added to a new key
+            if new_len == 0 {
+                dict.remove(&self.key);
+            }
             Ok(Resp {
                 old_len,
                 update_len,
-                new_len: sorted_set.hash.len(),
+                new_len,
             })
         } else {
             Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove.rs b/component/dict/src/cmd/sorted_set/remove.rs
index 1fdf352..226cb73 100644
--- a/component/dict/src/cmd/sorted_set/remove.rs
+++ b/component/dict/src/cmd/sorted_set/remove.rs
@@ -36,10 +36,12 @@ impl<D: Dict> Write<Resp, D> for Req {
                         sorted_set.value.remove(on);
                     }
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: sorted_set.hash.len(),
-                })
+                let new_len = sorted_set.hash.len();
+                // an empty collection doesn't exist
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1d2bc65..4e2b6e9 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -52,6 +52,10 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                // an empty collection doesn't exist
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
index eaf0f49..7a1a0b0 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
@@ -55,6 +55,10 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                // an empty collection doesn't exist
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f08e729..3a0b015 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -51,6 +51,10 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                // an empty collection doesn't exist
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
-- 
2.43.0


From b0739d8afdbe8f3bfadfc746d79ec6c06005f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 16/27] fix: ZADD keeps lookups and traversal in step, and GT,
 LT, INCR and CH do what they say

---
 .../common/src/connection/parse/frame.rs      | 11 +++--
 component/dict/src/cmd/sorted_set/add.rs      | 41 ++++++++++---------
 component/server/src/cmd/sorted_set/zadd.rs   |  5 ++-
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 802d5b1..c3eae1b 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -292,10 +292,13 @@ impl<'a> TryFrom<Frame<'a>> for Float {
             Frame::Bulk(b) | Frame::Simple(b) => {
                 let s = std::str::from_utf8(b)
                     .map_err::<Self::Error, _>(|_| "protocol error".into())?;
-                Ok(Self(
-                    s.parse()
-                        .map_err::<Self::Error, _>(|_| "protocol error".into())?,
-                ))
+                let f: f64 = s
+                    .parse()
+                    .map_err::<Self::Error, _>(|_| "protocol error".into())?;
+                if f.is_nan() {
+                    return Err("protocol error; not a valid float".into());
+                }
+                Ok(Self(f))
             }
             #[allow(clippy::cast_precision_loss)]
             Frame::Integer(i) => Ok(Self(i as _)),
diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index f99b6d6..aede493 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -28,7 +28,7 @@ pub struct Resp {
     pub old_len: usize,
     /// 更新后大小
     pub new_len: usize,
-    /// 更新成功的node数
+    /// 新增和 score 改变的node数
     pub update_len: usize,
 }
 impl From<Req> for WriteCmd {
@@ -49,29 +49,30 @@ impl<D: Dict> Write<Resp, D> for Req {
             let old_len = sorted_set.hash.len();
             let mut update_len = 0;
             for mut node in self.nodes {
-                let can_update = match (self.nx_xx, self.gt_lt) {
-                    (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
-                    (NxXx::Nx, _) => false,
-                    (_, GtLt::Gt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score < node.score)
-                        .is_some(),
-                    (_, GtLt::Lt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score > node.score)
-                        .is_some(),
-                    (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
-                    (NxXx::None, GtLt::None) => true,
+                let (can_update, changed) = match sorted_set.hash.get(&node.key) {
+                    Some(on) => {
+                        if self.incr {
+                            node.score.0 += on.score.0;
+                            if node.score.0.is_nan() {
+                                return Err("ERR resulting score is not a number (NaN)".into());
+                            }
+                        }
+                        let can_update = match (self.nx_xx, self.gt_lt) {
+                            (NxXx::Nx, _) => false,
+                            (_, GtLt::Gt) => on.score < node.score,
+                            (_, GtLt::Lt) => on.score > node.score,
+                            (_, GtLt::None) => true,
+                        };
+                        (can_update, on.score != node.score)
+                    }
+                    None => (!self.nx_xx.is_xx(), true),
                 };
                 if can_update {
-                    update_len += 1;
+                    if changed {
+                        update_len += 1;
+                    }
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
-                        if self.incr {
-                            node.score.0 += on.score.0;
-                        }
                     }
                     sorted_set.value.insert(node);
                 }
diff --git a/component/server/src/cmd/sorted_set/zadd.rs b/component/server/src/cmd/sorted_set/zadd.rs
index 7348575..7fd8205 100644
--- a/component/server/src/cmd/sorted_set/zadd.rs
+++ b/component/server/src/cmd/sorted_set/zadd.rs
@@ -23,6 +23,9 @@ pub struct Zadd {
 impl Zadd {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
+        if self.incr && self.nodes.len() > 1 {
+            return Err("ERR INCR option supports a single increment-element pair".into());
+        }
         let ch = self.ch;
         let res = db.sorted_set_add(dict::cmd::sorted_set::add::Req {
             key: self.key,
@@ -32,7 +35,7 @@ impl Zadd {
             incr: self.incr,
         })?;
         if ch {
-            Ok(Frame::Integer(res.new_len as _))
+            Ok(Frame::Integer(res.update_len as _))
         } else {
             Ok(Frame::Integer((res.new_len - res.old_len) as _))
         }
-- 
2.43.0


From ac12fb2df14cc81449c4b9c79d04f8dc8f8e4bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 17/27] fix: ranges by score select every member in the range,
 inverted ranges nothing

---
 component/dict/src/cmd/sorted_set/mod.rs      | 37 +++++++++++++++----
 .../dict/src/cmd/sorted_set/range_by_lex.rs   |  3 ++
 .../dict/src/cmd/sorted_set/range_by_score.rs |  5 ++-
 .../src/cmd/sorted_set/remove_by_lex_range.rs |  3 ++
 .../cmd/sorted_set/remove_by_score_range.rs   |  5 ++-
 5 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 25873b1..1c9b62f 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -18,7 +18,7 @@ pub(self) fn shape_limit(limit: Limit, len: usize) -> (usize, usize) {
     match limit {
         Limit::Limit(mut offset, count) => {
             if offset < 0 {
-                offset = 0.max(len as i64 - offset);
+                offset = 0.max(len as i64 + offset);
             }
             (
                 offset as usize,
@@ -49,15 +49,36 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     (start as usize, stop as usize + 1)
 }
 
-pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>, Bound<Node>) {
-    (
-        range.0.map(|f| Node {
-            score: f,
+/// true if nothing can lie in `range`
+pub(self) fn is_empty_range<T: PartialOrd>(range: &(Bound<T>, Bound<T>)) -> bool {
+    match (&range.0, &range.1) {
+        (Bound::Included(start), Bound::Included(end)) => start > end,
+        (Bound::Included(start), Bound::Excluded(end))
+        | (Bound::Excluded(start), Bound::Included(end) | Bound::Excluded(end)) => start >= end,
+        _ => false,
+    }
+}
+
+/// a range of nodes that has all nodes with a score in `range`, `None` if there can be none
+pub(self) fn bigger_range(
+    range: (Bound<Float>, Bound<Float>),
+) -> Option<(Bound<Node>, Bound<Node>)> {
+    if is_empty_range(&range) {
+        return None;
+    }
+    let end = match range.1 {
+        // the empty key is the smallest one
+        Bound::Included(f) | Bound::Excluded(f) if f.0 < f64::INFINITY => Bound::Excluded(Node {
+            score: Float(f.0.next_up()),
             key: [][..].into(),
         }),
-        range.1.map(|f| Node {
-            score: Float(f.0 + 0.1),
+        _ => Bound::Unbounded,
+    };
+    Some((
+        range.0.map(|f| Node {
+            score: f,
             key: [][..].into(),
         }),
-    )
+        end,
+    ))
 }
diff --git a/component/dict/src/cmd/sorted_set/range_by_lex.rs b/component/dict/src/cmd/sorted_set/range_by_lex.rs
index 3ee316e..4152d2b 100644
--- a/component/dict/src/cmd/sorted_set/range_by_lex.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_lex.rs
@@ -37,6 +37,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
                         key: key.into(),
                     }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(range);
                 let res = if self.rev {
diff --git a/component/dict/src/cmd/sorted_set/range_by_score.rs b/component/dict/src/cmd/sorted_set/range_by_score.rs
index 4814d67..483cc50 100644
--- a/component/dict/src/cmd/sorted_set/range_by_score.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_score.rs
@@ -24,7 +24,10 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
         if let Some(value) = dict.get(self.key) {
             if let DataType::SortedSet(ref ss) = value.data {
                 let value = &ss.value;
-                let bigger_range = super::bigger_range(self.range);
+                let bigger_range = match super::bigger_range(self.range) {
+                    Some(range) => range,
+                    None => return Ok(vec![]),
+                };
                 debug!(?bigger_range);
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(bigger_range);
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 4e2b6e9..cc3dc7d 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -34,6 +34,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                     self.range.0.map(|key| Node { score, key }),
                     self.range.1.map(|key| Node { score, key }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(range);
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index 3a0b015..6685ef3 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -29,7 +29,10 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
         if let Some(old) = dict.get(&self.key) {
             if let DataType::SortedSet(ref mut sorted_set) = old.data {
                 let mut res = vec![];
-                let bigger_range = super::bigger_range(self.range);
+                let bigger_range = match super::bigger_range(self.range) {
+                    Some(range) => range,
+                    None => return Ok(vec![]),
+                };
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(bigger_range);
                 if self.rev {
-- 
2.43.0


From 156db92c34d2a1c06fce63cba13dcea2de05510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 18/27] fix: range bounds are parsed exactly and + and - keep
 their side

---
 .../common/src/options/range_cmd_order.rs     | 42 ++++++++++++++-----
 component/server/src/cmd/sorted_set/zrange.rs |  9 ++--
 .../server/src/cmd/sorted_set/zrangebylex.rs  |  5 +--
 .../src/cmd/sorted_set/zremrangebylex.rs      |  3 +-
 .../src/cmd/sorted_set/zrevrangebylex.rs      |  5 +--
 5 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index c3df6bd..7dcd3e8 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -23,33 +23,45 @@ impl RangeCmdOrder {
     /// str not float
     #[inline]
     pub fn parse_float_bound(data: &str) -> crate::Result<Bound<Float>> {
-        let res = if data.len() >= 4 && matches!(&data[..3], "-inf" | "+inf") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(Float(s.parse::<f64>()?))
+        let res = if let Some(s) = data.strip_prefix('(') {
+            Bound::Excluded(parse_float(s)?)
         } else {
-            Bound::Included(Float(data.parse::<f64>()?))
+            Bound::Included(parse_float(data)?)
         };
         Ok(res)
     }
 
     /// # Errors
-    /// str is empty
+    /// not `-`, `+`, or a member after `[` or `(`
     #[inline]
     pub fn parse_lex_bound(data: &str) -> crate::Result<Bound<&[u8]>> {
-        if data.is_empty() {
-            return Err("bound invaild".into());
-        }
-        let res = if matches!(&data[..1], "-" | "+") {
+        let res = if data == "-" || data == "+" {
             Bound::Unbounded
         } else if let Some(s) = data.strip_prefix('(') {
             Bound::Excluded(s.as_bytes())
+        } else if let Some(s) = data.strip_prefix('[') {
+            Bound::Included(s.as_bytes())
         } else {
-            Bound::Included(data[1..].as_bytes())
+            return Err("bound invaild".into());
         };
         Ok(res)
     }
 
+    /// # Errors
+    /// `min` or `max` is not a bound
+    #[inline]
+    pub fn parse_lex_range<'a>(
+        min: &'a str,
+        max: &'a str,
+    ) -> crate::Result<(Bound<&'a [u8]>, Bound<&'a [u8]>)> {
+        let range = (Self::parse_lex_bound(min)?, Self::parse_lex_bound(max)?);
+        if min == "+" || max == "-" {
+            // no member is bigger than `+` or smaller than `-`
+            return Ok((Bound::Excluded(&[]), Bound::Excluded(&[])));
+        }
+        Ok(range)
+    }
+
     /// # Errors
     /// no errors
     #[inline]
@@ -65,3 +77,11 @@ impl RangeCmdOrder {
         Ok(res)
     }
 }
+
+fn parse_float(s: &str) -> crate::Result<Float> {
+    let f = s.parse::<f64>()?;
+    if f.is_nan() {
+        return Err("min or max is not a float".into());
+    }
+    Ok(Float(f))
+}
diff --git a/component/server/src/cmd/sorted_set/zrange.rs b/component/server/src/cmd/sorted_set/zrange.rs
index f83e628..cc95fdb 100644
--- a/component/server/src/cmd/sorted_set/zrange.rs
+++ b/component/server/src/cmd/sorted_set/zrange.rs
@@ -34,11 +34,14 @@ impl Zrange<'_> {
                 db.sorted_set_range_by_score(cmd)?
             }
             RangeCmdOrder::Bylex => {
-                let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-                let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+                let range = if self.rev {
+                    RangeCmdOrder::parse_lex_range(self.max, self.min)?
+                } else {
+                    RangeCmdOrder::parse_lex_range(self.min, self.max)?
+                };
                 let cmd = dict::cmd::sorted_set::range_by_lex::Req {
                     key: self.key,
-                    range: if self.rev { (max, min) } else { (min, max) },
+                    range,
                     limit: self.limit,
                     rev: self.rev,
                 };
diff --git a/component/server/src/cmd/sorted_set/zrangebylex.rs b/component/server/src/cmd/sorted_set/zrangebylex.rs
index ddd8d67..2eaddea 100644
--- a/component/server/src/cmd/sorted_set/zrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrangebylex.rs
@@ -19,11 +19,10 @@ pub struct Zrangebylex<'a> {
 impl Zrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let range = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
-            range: (min, max),
+            range,
             limit: self.limit,
             rev: false,
         };
diff --git a/component/server/src/cmd/sorted_set/zremrangebylex.rs b/component/server/src/cmd/sorted_set/zremrangebylex.rs
index 6530078..38819eb 100644
--- a/component/server/src/cmd/sorted_set/zremrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zremrangebylex.rs
@@ -15,8 +15,7 @@ pub struct Zremrangebylex<'a> {
 impl Zremrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let (min, max) = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let res =
             db.sorted_set_remove_by_lex_range(dict::cmd::sorted_set::remove_by_lex_range::Req {
                 key: self.key.into(),
diff --git a/component/server/src/cmd/sorted_set/zrevrangebylex.rs b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
index a5272a2..7ed3c78 100644
--- a/component/server/src/cmd/sorted_set/zrevrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
@@ -18,11 +18,10 @@ pub struct Zrevrangebylex<'a> {
 impl Zrevrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let range = RangeCmdOrder::parse_lex_range(self.max, self.min)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
-            range: (max, min),
+            range,
             limit: self.limit,
             rev: true,
         };
-- 
2.43.0


From 769ad1cd0bfdfa1617dd7e4f5d1e02e76706a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 19/27] fix: access frequency survives the wrap of its minute
 counter and values given to RESTORE saturate

---
 component/dict/src/cmd/server/restore.rs   | 2 +-
 component/dict/src/lib.rs                  | 5 +++--
 component/server/src/cmd/others/object.rs  | 4 +++-
 component/server/src/cmd/others/restore.rs | 9 ++++-----
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 7ad0b0a..1b78460 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -41,7 +41,7 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
             visit_log: Value::create_visit_log(
                 self.last_visit_time / 10,
                 Value::get_min(now_timestamp_ms()),
-                self.freq,
+                self.freq.min(Value::MAX_VISIT_TIMES),
             ),
         };
         let key: Key = self.key.into();
diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 9df8e65..22d0acc 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -58,7 +58,7 @@ pub struct Value {
 }
 
 impl Value {
-    const MAX_VISIT_TIMES: u64 = (1 << 16) - 1;
+    pub(crate) const MAX_VISIT_TIMES: u64 = (1 << 16) - 1;
     /// 16 bit
     #[inline]
     const fn get_min(now: u64) -> u64 {
@@ -110,7 +110,8 @@ impl Value {
         let old_last_desc_time = self.get_last_desc_time();
         let last_desc_time = Self::get_min(now);
         // todo diff / minutes
-        let diff = last_desc_time - old_last_desc_time;
+        // both are minutes modulo 1 << 16
+        let diff = last_desc_time.wrapping_sub(old_last_desc_time) & ((1 << 16) - 1);
         let mut visit_times = self.get_visit_times();
         if diff > visit_times {
             visit_times = 0;
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index a3608e4..b1ef3e6 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -25,7 +25,9 @@ impl Object<'_> {
                 })?
             {
                 #[allow(clippy::cast_possible_wrap)]
-                Ok(Frame::Integer((now_timestamp_ms() / 1000 - u) as _))
+                Ok(Frame::Integer(
+                    (now_timestamp_ms() / 1000).saturating_sub(u) as _,
+                ))
             } else {
                 Err("idletiem key not exists".into())
             };
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 034bb76..231f3ef 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -37,11 +37,10 @@ impl Restore<'_> {
             value: self.serialized_value,
             expires_at: ttl,
             replace: self.replace,
-            last_visit_time: now_timestamp_ms() / 1000
-                - match self.idle_time {
-                    IdleTime::Some(i) => i,
-                    IdleTime::None => 0,
-                },
+            last_visit_time: (now_timestamp_ms() / 1000).saturating_sub(match self.idle_time {
+                IdleTime::Some(i) => i,
+                IdleTime::None => 0,
+            }),
             freq: match self.freq {
                 Freq::Some(i) => i,
                 Freq::None => 0,
-- 
2.43.0


From 756f116fa3e6b60756505188088fc20d9ce722bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 20/27] fix: FLUSHALL does not restart the numbering of writes

---
 component/db/src/slot.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 5589406..f30dfe0 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -163,6 +163,8 @@ impl Slot {
         let mut status = self.share_status.lock();
         if let Some(inner) = &mut *status {
             let old = std::mem::take(inner);
+            // a flush is not forwarded, but it uses up an id so that replicas notice it
+            inner.dict.set_write_id(old.dict.last_write_op_id() + 1);
             drop(status);
             if !sync {
                 tokio::task::spawn_blocking(|| old);
-- 
2.43.0


From a2a09f855404c33407fec95c146ad7e8c514137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 21/27] fix: the snapshot is sent in the format the replica
 reads, and completely

---
 component/server/src/cmd/syncsnapshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4f20c77..71bccd7 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -50,9 +50,10 @@ impl SyncSnapshot {
                 // parent restarts it can bind/lock despite the child possibly still running.
                 let run = |stream: TcpStream| -> common::Result<()> {
                     let mut stream = stream.into_std()?;
+                    stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
-                            bincode::serialize_into(&mut stream, &Some(id))?;
+                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                             bincode::serialize_into(&mut stream, &s.dict)?;
                         }
                     }
-- 
2.43.0


From 42e4936a9d3d0508ce57b0b85797223ae5076dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 22/27] fix: a snapshot of one slot does not lock the other
 slots of the replica

---
 component/db/src/pd_handle/replica.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f4a47e2..eaed390 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -81,7 +81,10 @@ impl Inner {
     }
 
     fn lock_slot(&self, slot_id: usize) {
-        if slot_id != SLOT_SIZE {}
+        if slot_id != SLOT_SIZE {
+            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
+            return;
+        }
         for l in &self.snapshot_lock {
             l.store(true, std::sync::atomic::Ordering::Relaxed);
         }
-- 
2.43.0


From 773a4cf6998456686d9472169b492f5d5b50c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 23/27] fix: an unknown word after the options is a syntax
 error

---
 component/macros/src/parse_frames.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 6d5dd9b..7b6b05b 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -317,6 +317,16 @@ pub fn do_derive(ast: &DeriveInput) -> proc_macro2::TokenStream {
         has_next = false;
     }
     read_token.push(parse_optional_fields(&optional_fields));
+    if !optional_fields.is_empty() {
+        // nothing may follow the options
+        read_token.push(quote! {
+            match next {
+                Err(common::connection::parse::ParseError::EndOfStream) => (),
+                Err(err) => return Err(err.into()),
+                Ok(_) => return Err("ERR syntax error".into()),
+            }
+        });
+    }
     let self_token = utils::derive_get_struct_fields(ast)
         .unwrap()
         .iter()
-- 
2.43.0


From ad4c939ce8fd5505d76b44d4874c8b53b377a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 24/27] fix: negative numbers are refused where a count is
 expected

---
 component/common/src/connection/parse/mod.rs | 13 +++++++++++++
 component/common/src/options/freq.rs         |  2 +-
 component/common/src/options/idletime.rs     |  2 +-
 component/macros/src/parse_frames.rs         |  7 +++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index a3b6fc5..17df57a 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -161,6 +161,19 @@ impl<'a> Parse<'a> {
         }
     }
 
+    /// Return the next entry as an integer that is not negative.
+    ///
+    /// # Errors
+    /// see `next_int`, or it is negative
+    #[inline]
+    #[allow(clippy::cast_sign_loss)]
+    pub fn next_uint(&self) -> Result<u64, ParseError> {
+        match self.next_int()? {
+            v if v < 0 => Err("protocol error; number must not be negative".into()),
+            v => Ok(v as u64),
+        }
+    }
+
     /// Ensure there are no more entries in the array
     /// # Errors
     /// if has more entries
diff --git a/component/common/src/options/freq.rs b/component/common/src/options/freq.rs
index 38dacb7..d52e6b8 100644
--- a/component/common/src/options/freq.rs
+++ b/component/common/src/options/freq.rs
@@ -22,7 +22,7 @@ impl Freq {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "freq" => Some(Self::Some(parse.next_int()? as _)),
+            "freq" => Some(Self::Some(parse.next_uint()?)),
             _ => None,
         };
         Ok(res)
diff --git a/component/common/src/options/idletime.rs b/component/common/src/options/idletime.rs
index 88e4892..aa60943 100644
--- a/component/common/src/options/idletime.rs
+++ b/component/common/src/options/idletime.rs
@@ -22,7 +22,7 @@ impl IdleTime {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "idletime" => Some(Self::Some(parse.next_int()? as _)),
+            "idletime" => Some(Self::Some(parse.next_uint()?)),
             _ => None,
         };
         Ok(res)
diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 7b6b05b..e3be051 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -57,8 +57,11 @@ fn parse_simple(field_type: &Type, has_next: bool) -> proc_macro2::TokenStream {
             if *ident == "DataType" {
                 return quote! { crate::frame_parse::next_data_type(parse) };
             }
-            if *ident == "i64" || *ident == "u64" || *ident == "usize" {
-                return quote! { parse.next_int().map(|t|t as #field_type) };
+            if *ident == "i64" {
+                return quote! { parse.next_int() };
+            }
+            if *ident == "u64" || *ident == "usize" {
+                return quote! { parse.next_uint().map(|t|t as #field_type) };
             }
             if *ident == "Float" {
                 return quote! { parse.next_float() };
-- 
2.43.0


From 36078a1ad298bc81bf24f0b25bf1107a5001bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 25/27] fix: RESTORE refuses payloads no command could have
 written instead of crashing on nested ones

---
 component/dict/src/cmd/server/restore.rs | 79 +++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 1b78460..c957675 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -1,9 +1,12 @@
+use std::collections::{BTreeSet, HashMap, VecDeque};
+
 use common::now_timestamp_ms;
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
 use crate::{
     cmd::{ExpiresOp, ExpiresOpResp, ExpiresStatus, ExpiresStatusUpdate, WriteCmd},
+    data_type::{sorted_set::Node, DataType, Deque, Float, Kvp, Set, SortedSet},
     Dict, Value,
 };
 
@@ -36,7 +39,7 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
             before = v.expires_at;
         }
         let v = Value {
-            data: bincode::deserialize(self.value)?,
+            data: decode(self.value)?,
             expires_at: self.expires_at,
             visit_log: Value::create_visit_log(
                 self.last_visit_time / 10,
@@ -56,3 +59,77 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
         })
     }
 }
+
+/// `DataType` on the wire, but collections don't nest
+#[derive(Deserialize)]
+enum Payload {
+    Null,
+    String(Vec<u8>),
+    Bytes(Vec<u8>),
+    Integer(i64),
+    Float(Float),
+    Kvp(HashMap<Box<[u8]>, Element, ahash::RandomState>),
+    Deque(VecDeque<Element>),
+    Set(Set),
+    SortedSet(HashMap<Box<[u8]>, Node, ahash::RandomState>, Vec<Node>),
+}
+
+#[derive(Deserialize)]
+enum Element {
+    Null,
+    String(Vec<u8>),
+    Bytes(Vec<u8>),
+    Integer(i64),
+    Float(Float),
+}
+
+impl From<Element> for DataType {
+    #[inline]
+    fn from(e: Element) -> Self {
+        match e {
+            Element::Null => DataType::Null,
+            Element::String(s) => DataType::String(s),
+            Element::Bytes(b) => DataType::Bytes(b),
+            Element::Integer(i) => DataType::Integer(i),
+            Element::Float(f) => DataType::Float(f),
+        }
+    }
+}
+
+/// decode the payload, the result is a value some command could have written
+fn decode(payload: &[u8]) -> common::Result<DataType> {
+    const INVALID: &str = "ERR Bad data format";
+    let data = match bincode::deserialize(payload)? {
+        Payload::String(s) => DataType::String(s),
+        Payload::Bytes(b) => DataType::Bytes(b),
+        Payload::Integer(i) => DataType::Integer(i),
+        Payload::Float(f) => DataType::Float(f),
+        Payload::Kvp(m) if !m.is_empty() => {
+            let mut kvp = Kvp::new();
+            kvp.extend(m.into_iter().map(|(k, v)| (k, v.into())));
+            DataType::Kvp(Box::new(kvp))
+        }
+        Payload::Deque(d) if !d.is_empty() => {
+            let mut deque = Deque::new();
+            deque.extend(d.into_iter().map(DataType::from));
+            DataType::Deque(deque)
+        }
+        Payload::Set(s) if !s.is_empty() => DataType::Set(Box::new(s)),
+        Payload::SortedSet(hash, nodes) if !hash.is_empty() => {
+            if hash.iter().any(|(k, n)| *k != n.key || n.score.0.is_nan()) {
+                return Err(INVALID.into());
+            }
+            let value: BTreeSet<_> = hash.values().cloned().collect();
+            if !value.iter().eq(&nodes) {
+                return Err(INVALID.into());
+            }
+            DataType::SortedSet(Box::new(SortedSet { hash, value }))
+        }
+        Payload::Null
+        | Payload::Kvp(_)
+        | Payload::Deque(_)
+        | Payload::Set(_)
+        | Payload::SortedSet(..) => return Err(INVALID.into()),
+    };
+    Ok(data)
+}
-- 
2.43.0


From 895767d65c48d9b47caf02d0d2d860e94cb872a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 26/27] verification hook: serve a given Db (cfg rudis_verif,
 off by default)

---
 component/server/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/component/server/src/lib.rs b/component/server/src/lib.rs
index ddefc12..2235aeb 100644
--- a/component/server/src/lib.rs
+++ b/component/server/src/lib.rs
@@ -115,6 +115,27 @@ pub async fn run(listener: TcpListener, shutdown: impl Future) {
     }
 }
 
+/// Serve `listener` on a `db` that the caller keeps a handle of.
+///
+/// Only for verification harnesses, the flag is never set in a normal build.
+///
+/// # Errors
+/// see `Listener::run`
+#[allow(unexpected_cfgs)]
+#[cfg(rudis_verif)]
+pub async fn run_with_db(
+    listener: TcpListener,
+    db: Arc<Db>,
+    max_connections: usize,
+) -> common::Result<()> {
+    let mut server = Listener {
+        listener,
+        db,
+        limit_connections: Limit::new(max_connections),
+    };
+    server.run().await
+}
+
 impl Listener {
     /// Run the server
     ///
-- 
2.43.0


From 37399196ad81464e4906f8e9685b09d8e50b897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 27/27] fix: a snapshot is sent whole however parent and child
 process are scheduled

---
 component/server/src/cmd/syncsnapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 71bccd7..8c6ede8 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -4,7 +4,6 @@ use common::SLOT_SIZE;
 use db::child_process;
 use macros::ParseFrames;
 use nix::unistd::ForkResult;
-use tokio::net::TcpStream;
 use tracing::{error, info};
 
 use crate::Handler;
@@ -34,6 +33,16 @@ impl SyncSnapshot {
             )]
         };
 
+        // The event loop is shared with the child: whichever process detaches the connection second would fail,
+        // so it is done before the fork.
+        let mut stream = match handler.connection.stream.into_std() {
+            Ok(stream) => stream,
+            Err(e) => {
+                error!("send snapshot error: {:?}", e);
+                return;
+            }
+        };
+
         match unsafe { nix::unistd::fork() } {
             Ok(ForkResult::Parent { child }) => {
                 info!(
@@ -48,8 +57,7 @@ impl SyncSnapshot {
                 // of the parent process, e.g. fd(socket or flock) etc.
                 // should close the resources not used by the child process, so that if the
                 // parent restarts it can bind/lock despite the child possibly still running.
-                let run = |stream: TcpStream| -> common::Result<()> {
-                    let mut stream = stream.into_std()?;
+                let mut run = || -> common::Result<()> {
                     stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
@@ -61,7 +69,7 @@ impl SyncSnapshot {
                     bincode::serialize_into(&mut stream, &end)?;
                     Ok(())
                 };
-                match run(handler.connection.stream) {
+                match run() {
                     Ok(_) => {}
                     Err(e) => error!("send snapshot error: {:?}", e),
                 }
-- 
2.43.0

