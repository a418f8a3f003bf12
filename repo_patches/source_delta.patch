From fc9489dbbd6f9c49b0bcf031acf929e9e28f3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 01/43] fix: reject counter increments that overflow instead of
 panicking or wrapping

---
 component/dict/src/cmd/kvp/incr.rs      |  4 +++-
 component/dict/src/cmd/simple/incr.rs   |  4 +++-
 component/server/src/cmd/base/decrby.rs | 19 ++++++++-----------
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/component/dict/src/cmd/kvp/incr.rs b/component/dict/src/cmd/kvp/incr.rs
index feb7c7d..5c568c0 100644
--- a/component/dict/src/cmd/kvp/incr.rs
+++ b/component/dict/src/cmd/kvp/incr.rs
@@ -35,7 +35,9 @@ impl<D: Dict> Write<i64, D> for Req {
             DataType::Kvp(ref mut kvp) => {
                 if let Some(s) = kvp.get_mut(&self.field) {
                     let old: i64 = (&*s).try_into()?;
-                    let new = old + self.value;
+                    let new = old
+                        .checked_add(self.value)
+                        .ok_or("ERR increment or decrement would overflow")?;
                     *s = DataType::Integer(new);
                     Ok(new)
                 } else {
diff --git a/component/dict/src/cmd/simple/incr.rs b/component/dict/src/cmd/simple/incr.rs
index cd1e5bb..a5948b0 100644
--- a/component/dict/src/cmd/simple/incr.rs
+++ b/component/dict/src/cmd/simple/incr.rs
@@ -27,7 +27,9 @@ impl<D: Dict> Write<i64, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<i64> {
         if let Some(v) = dict.get(&self.key) {
             let old: i64 = (&v.data).try_into()?;
-            let new = old + self.value;
+            let new = old
+                .checked_add(self.value)
+                .ok_or("ERR increment or decrement would overflow")?;
             v.data = DataType::Integer(new);
             Ok(new)
         } else {
diff --git a/component/server/src/cmd/base/decrby.rs b/component/server/src/cmd/base/decrby.rs
index 8108612..08c790e 100644
--- a/component/server/src/cmd/base/decrby.rs
+++ b/component/server/src/cmd/base/decrby.rs
@@ -10,20 +10,17 @@ pub struct Decrby {
     pub value: i64,
 }
 
-impl From<Decrby> for dict::cmd::simple::incr::Req {
-    #[inline]
-    fn from(old: Decrby) -> Self {
-        Self {
-            key: old.key,
-            value: -old.value,
-        }
-    }
-}
-
 impl Decrby {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let response = db.incr(self.into())?;
+        let value = self
+            .value
+            .checked_neg()
+            .ok_or("ERR decrement would overflow")?;
+        let response = db.incr(dict::cmd::simple::incr::Req {
+            key: self.key,
+            value,
+        })?;
         Ok(Frame::Integer(response))
     }
 }
-- 
2.43.0


From 0e2a1954e1bcede96324a28287d4c3b3b8d02c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 02/43] fix: ZADD INCR stores the new score in both indexes of
 the sorted set

---
 component/dict/src/cmd/sorted_set/add.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 92659bd..c6e2fc0 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -40,6 +40,9 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
+        if self.incr && self.nodes.len() != 1 {
+            return Err("ERR INCR option supports a single increment-element pair".into());
+        }
         let old = dict.get_or_insert_with(self.key, || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
@@ -49,6 +52,13 @@ impl<D: Dict> Write<Resp, D> for Req {
             let old_len = sorted_set.hash.len();
             let mut update_len = 0;
             for mut node in self.nodes {
+                let old_score = sorted_set.hash.get(&node.key).map(|x| x.score);
+                if let (true, Some(score)) = (self.incr, old_score) {
+                    node.score.0 += score.0;
+                    if node.score.0.is_nan() {
+                        return Err("ERR resulting score is not a number (NaN)".into());
+                    }
+                }
                 let can_update = match (self.nx_xx, self.gt_lt) {
                     (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
                     (NxXx::Nx, _) => false,
@@ -69,9 +79,6 @@ impl<D: Dict> Write<Resp, D> for Req {
                     update_len += 1;
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
-                        if self.incr {
-                            node.score.0 += on.score.0;
-                        }
                     }
                     sorted_set.value.insert(node);
                 }
-- 
2.43.0


From 23b0426204e98fae6a5cdbefa2e4accdffab33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 03/43] fix: ZADD GT/LT without XX adds members that do not
 exist yet

---
 component/dict/src/cmd/sorted_set/add.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index c6e2fc0..349fe1b 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -62,16 +62,10 @@ impl<D: Dict> Write<Resp, D> for Req {
                 let can_update = match (self.nx_xx, self.gt_lt) {
                     (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
                     (NxXx::Nx, _) => false,
-                    (_, GtLt::Gt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score < node.score)
-                        .is_some(),
-                    (_, GtLt::Lt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score > node.score)
-                        .is_some(),
+                    (NxXx::Xx, GtLt::Gt) => old_score.map_or(false, |s| s < node.score),
+                    (NxXx::Xx, GtLt::Lt) => old_score.map_or(false, |s| s > node.score),
+                    (NxXx::None, GtLt::Gt) => old_score.map_or(true, |s| s < node.score),
+                    (NxXx::None, GtLt::Lt) => old_score.map_or(true, |s| s > node.score),
                     (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
                     (NxXx::None, GtLt::None) => true,
                 };
-- 
2.43.0


From e669040e3bbd377757b75276554d04ad4d96041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 04/43] fix: ZADD XX on a missing key does not create an empty
 sorted set

---
 component/dict/src/cmd/sorted_set/add.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 349fe1b..0369abf 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -43,6 +43,13 @@ impl<D: Dict> Write<Resp, D> for Req {
         if self.incr && self.nodes.len() != 1 {
             return Err("ERR INCR option supports a single increment-element pair".into());
         }
+        if self.nx_xx.is_xx() && !dict.exists(&self.key) {
+            return Ok(Resp {
+                old_len: 0,
+                new_len: 0,
+                update_len: 0,
+            });
+        }
         let old = dict.get_or_insert_with(self.key, || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
-- 
2.43.0


From 08f68d006b69f663cd1d7ce0d4269b9e79a44593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 05/43] fix: ZADD CH replies with the number of added or
 changed members

---
 component/dict/src/cmd/sorted_set/add.rs    | 4 +++-
 component/server/src/cmd/sorted_set/zadd.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 0369abf..9cbc1dd 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -77,7 +77,9 @@ impl<D: Dict> Write<Resp, D> for Req {
                     (NxXx::None, GtLt::None) => true,
                 };
                 if can_update {
-                    update_len += 1;
+                    if old_score != Some(node.score) {
+                        update_len += 1;
+                    }
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
                     }
diff --git a/component/server/src/cmd/sorted_set/zadd.rs b/component/server/src/cmd/sorted_set/zadd.rs
index 7348575..93134d8 100644
--- a/component/server/src/cmd/sorted_set/zadd.rs
+++ b/component/server/src/cmd/sorted_set/zadd.rs
@@ -32,7 +32,7 @@ impl Zadd {
             incr: self.incr,
         })?;
         if ch {
-            Ok(Frame::Integer(res.new_len as _))
+            Ok(Frame::Integer(res.update_len as _))
         } else {
             Ok(Frame::Integer((res.new_len - res.old_len) as _))
         }
-- 
2.43.0


From 67709b10723470f511feed1969cf5db68300a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 06/43] fix: ZADD NX with GT or LT is refused instead of
 leaving an empty sorted set

---
 component/dict/src/cmd/sorted_set/add.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 9cbc1dd..f33c7d5 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -43,6 +43,9 @@ impl<D: Dict> Write<Resp, D> for Req {
         if self.incr && self.nodes.len() != 1 {
             return Err("ERR INCR option supports a single increment-element pair".into());
         }
+        if self.nx_xx.is_nx() && !self.gt_lt.is_none() {
+            return Err("ERR GT, LT, and/or NX options at the same time are not compatible".into());
+        }
         if self.nx_xx.is_xx() && !dict.exists(&self.key) {
             return Ok(Resp {
                 old_len: 0,
-- 
2.43.0


From e486366a5e201166ab1ef6a486add32f9abc5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 07/43] fix: NaN scores and score bounds are refused instead of
 breaking the score order

---
 component/common/src/connection/parse/frame.rs  | 11 +++++++----
 component/common/src/options/range_cmd_order.rs | 12 +++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index b37a839..86ee175 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -287,10 +287,13 @@ impl<'a> TryFrom<Frame<'a>> for Float {
             Frame::Bulk(b) | Frame::Simple(b) => {
                 let s = std::str::from_utf8(b)
                     .map_err::<Self::Error, _>(|_| "protocol error".into())?;
-                Ok(Self(
-                    s.parse()
-                        .map_err::<Self::Error, _>(|_| "protocol error".into())?,
-                ))
+                let f: f64 = s
+                    .parse()
+                    .map_err::<Self::Error, _>(|_| "protocol error".into())?;
+                if f.is_nan() {
+                    return Err("ERR value is not a valid float".into());
+                }
+                Ok(Self(f))
             }
             #[allow(clippy::cast_precision_loss)]
             Frame::Integer(i) => Ok(Self(i as _)),
diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index c3df6bd..512a5fb 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -23,12 +23,14 @@ impl RangeCmdOrder {
     /// str not float
     #[inline]
     pub fn parse_float_bound(data: &str) -> crate::Result<Bound<Float>> {
-        let res = if data.len() >= 4 && matches!(&data[..3], "-inf" | "+inf") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(Float(s.parse::<f64>()?))
+        let parse = |s: &str| match s.parse::<f64>() {
+            Ok(f) if !f.is_nan() => Ok(Float(f)),
+            _ => Err("ERR min or max is not a float"),
+        };
+        let res = if let Some(s) = data.strip_prefix('(') {
+            Bound::Excluded(parse(s)?)
         } else {
-            Bound::Included(Float(data.parse::<f64>()?))
+            Bound::Included(parse(data)?)
         };
         Ok(res)
     }
-- 
2.43.0


From 63010b4d8f61bd8571e2a3e58161b30cd0feb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 08/43] fix: lexicographic bounds are validated instead of
 slicing inside a character

---
 component/common/src/options/range_cmd_order.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index 512a5fb..6d5022e 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -39,15 +39,14 @@ impl RangeCmdOrder {
     /// str is empty
     #[inline]
     pub fn parse_lex_bound(data: &str) -> crate::Result<Bound<&[u8]>> {
-        if data.is_empty() {
-            return Err("bound invaild".into());
-        }
-        let res = if matches!(&data[..1], "-" | "+") {
+        let res = if matches!(data, "-" | "+") {
             Bound::Unbounded
         } else if let Some(s) = data.strip_prefix('(') {
             Bound::Excluded(s.as_bytes())
+        } else if let Some(s) = data.strip_prefix('[') {
+            Bound::Included(s.as_bytes())
         } else {
-            Bound::Included(data[1..].as_bytes())
+            return Err("bound invaild".into());
         };
         Ok(res)
     }
-- 
2.43.0


From 425ab18a1edfbc4544988d97f6ed26062d9dad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 09/43] fix: score ranges no longer panic when inverted or lose
 members with a large score

---
 component/dict/src/cmd/sorted_set/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 25873b1..e046361 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -55,9 +55,7 @@ pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>,
             score: f,
             key: [][..].into(),
         }),
-        range.1.map(|f| Node {
-            score: Float(f.0 + 0.1),
-            key: [][..].into(),
-        }),
+        // the callers filter by the exact score range
+        Bound::Unbounded,
     )
 }
-- 
2.43.0


From 092fd0fe832d40d2af07301028a8e947acc42496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 10/43] fix: a negative LIMIT offset counts from the end
 instead of overflowing

---
 component/dict/src/cmd/sorted_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index e046361..71f299f 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -18,7 +18,7 @@ pub(self) fn shape_limit(limit: Limit, len: usize) -> (usize, usize) {
     match limit {
         Limit::Limit(mut offset, count) => {
             if offset < 0 {
-                offset = 0.max(len as i64 - offset);
+                offset = 0.max(offset.saturating_add(len as i64));
             }
             (
                 offset as usize,
-- 
2.43.0


From 95437ea785460fe2162034b4b0ae21942b51624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 11/43] fix: an inverted lexicographic range is empty instead
 of a panic

---
 component/dict/src/cmd/sorted_set/mod.rs              | 11 +++++++++++
 component/dict/src/cmd/sorted_set/range_by_lex.rs     |  3 +++
 .../dict/src/cmd/sorted_set/remove_by_lex_range.rs    |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 71f299f..06899b6 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -49,6 +49,17 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     (start as usize, stop as usize + 1)
 }
 
+/// `BTreeSet::range` panics when the range is inverted
+pub(self) fn is_empty_range(range: &(Bound<Node>, Bound<Node>)) -> bool {
+    match (&range.0, &range.1) {
+        (Bound::Included(l), Bound::Included(r)) => l > r,
+        (Bound::Included(l) | Bound::Excluded(l), Bound::Included(r) | Bound::Excluded(r)) => {
+            l >= r
+        }
+        _ => false,
+    }
+}
+
 pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>, Bound<Node>) {
     (
         range.0.map(|f| Node {
diff --git a/component/dict/src/cmd/sorted_set/range_by_lex.rs b/component/dict/src/cmd/sorted_set/range_by_lex.rs
index 3ee316e..4152d2b 100644
--- a/component/dict/src/cmd/sorted_set/range_by_lex.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_lex.rs
@@ -37,6 +37,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
                         key: key.into(),
                     }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(range);
                 let res = if self.rev {
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1d2bc65..1495178 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -34,6 +34,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                     self.range.0.map(|key| Node { score, key }),
                     self.range.1.map(|key| Node { score, key }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(range);
-- 
2.43.0


From 65c9c2f961fe748dfa3ed0d152a88b8a2dfa01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 12/43] fix: rank ranges over an empty collection are empty
 instead of overflowing

---
 component/dict/src/cmd/sorted_set/mod.rs | 2 +-
 component/dict/src/data_type/deque.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 06899b6..ababa85 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -37,7 +37,7 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     if stop < 0 {
         stop += len;
     }
-    if start >= len || stop < 0 || stop < start {
+    if len == 0 || start >= len || stop < 0 || stop < start {
         return (0, 0);
     }
     if start < 0 {
diff --git a/component/dict/src/data_type/deque.rs b/component/dict/src/data_type/deque.rs
index 11dc67b..f68047a 100644
--- a/component/dict/src/data_type/deque.rs
+++ b/component/dict/src/data_type/deque.rs
@@ -29,7 +29,7 @@ impl Deque {
         if stop < 0 {
             stop += len;
         }
-        if start >= len || stop < 0 || stop < start {
+        if len == 0 || start >= len || stop < 0 || stop < start {
             return (0, 0);
         }
         if start < 0 {
-- 
2.43.0


From 5066f2ade59e03dd671fdd1d228d60453a265b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 13/43] fix: a collection emptied by a removal no longer leaves
 an empty key behind

---
 component/dict/src/cmd/deque/pop.rs                      | 3 +++
 component/dict/src/cmd/kvp/del.rs                        | 9 +++++----
 component/dict/src/cmd/set/remove.rs                     | 9 +++++----
 component/dict/src/cmd/sorted_set/remove.rs              | 9 +++++----
 component/dict/src/cmd/sorted_set/remove_by_lex_range.rs | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_rank_range.rs      | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs     | 3 +++
 7 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/component/dict/src/cmd/deque/pop.rs b/component/dict/src/cmd/deque/pop.rs
index 439dbde..4b69edd 100644
--- a/component/dict/src/cmd/deque/pop.rs
+++ b/component/dict/src/cmd/deque/pop.rs
@@ -33,6 +33,9 @@ impl<D: Dict> Write<Vec<DataType>, D> for Req {
                     let len = deque.len();
                     deque.drain(len - count..).rev().collect()
                 };
+                if deque.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/kvp/del.rs b/component/dict/src/cmd/kvp/del.rs
index 20e330f..0cd7231 100644
--- a/component/dict/src/cmd/kvp/del.rs
+++ b/component/dict/src/cmd/kvp/del.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for f in self.fields {
                     kvp.remove(&f);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: kvp.len(),
-                })
+                let new_len = kvp.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             };
diff --git a/component/dict/src/cmd/set/remove.rs b/component/dict/src/cmd/set/remove.rs
index d803f48..e1d0175 100644
--- a/component/dict/src/cmd/set/remove.rs
+++ b/component/dict/src/cmd/set/remove.rs
@@ -35,10 +35,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for ref m in self.members {
                     set.remove(m);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: set.len(),
-                })
+                let new_len = set.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove.rs b/component/dict/src/cmd/sorted_set/remove.rs
index 1fdf352..347ec58 100644
--- a/component/dict/src/cmd/sorted_set/remove.rs
+++ b/component/dict/src/cmd/sorted_set/remove.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                         sorted_set.value.remove(on);
                     }
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: sorted_set.hash.len(),
-                })
+                let new_len = sorted_set.hash.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1495178..3743ee4 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -55,6 +55,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
index eaf0f49..0bc1b46 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
@@ -55,6 +55,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f08e729..f97e5b1 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -51,6 +51,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
-- 
2.43.0


From bc3c826df7794fa9611bc8a796f7e694bfffc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 14/43] fix: SET GET does not return a value that has expired

---
 component/dict/src/cmd/simple/set.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 95acf2d..b6c21cc 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -1,4 +1,7 @@
-use common::options::{ExpiresAt, NxXx};
+use common::{
+    now_timestamp_ms,
+    options::{ExpiresAt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -54,8 +57,11 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
                 );
                 (old, ExpiresStatus::None)
             };
+            let now = now_timestamp_ms();
             return Ok(ExpiresOpResp {
-                payload: old.map_or(DataType::Null, |v| v.data),
+                payload: old
+                    .filter(|v| v.expires_at == 0 || v.expires_at > now)
+                    .map_or(DataType::Null, |v| v.data),
                 expires_status,
             });
         }
-- 
2.43.0


From 96ec7c9b3f71786813154d8a6413558dfcbf461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 15/43] fix: DEL does not count a key that has expired

---
 component/dict/src/cmd/simple/del.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/simple/del.rs b/component/dict/src/cmd/simple/del.rs
index 7d69ac8..acedbf3 100644
--- a/component/dict/src/cmd/simple/del.rs
+++ b/component/dict/src/cmd/simple/del.rs
@@ -1,3 +1,4 @@
+use common::now_timestamp_ms;
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -37,8 +38,9 @@ impl<D: Dict> ExpiresOp<Option<Value>, D> for Req {
                     ExpiresStatus::None
                 };
 
+                let alive = v.expires_at == 0 || v.expires_at > now_timestamp_ms();
                 ExpiresOpResp {
-                    payload: Some(v),
+                    payload: Some(v).filter(|_| alive),
                     expires_status,
                 }
             },
-- 
2.43.0


From 65a62599a2ec93381c98c53f26b852ff27598bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 16/43] fix: OBJECT IDLETIME and FREQ treat an expired key as
 missing

---
 component/dict/src/cmd/simple/get_last_visit_time.rs | 8 +++++++-
 component/dict/src/cmd/simple/get_visit_times.rs     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/get_last_visit_time.rs b/component/dict/src/cmd/simple/get_last_visit_time.rs
index f45bce2..26626a9 100644
--- a/component/dict/src/cmd/simple/get_last_visit_time.rs
+++ b/component/dict/src/cmd/simple/get_last_visit_time.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,11 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        let now = now_timestamp_ms();
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now)
+        {
             return Ok(Some(v.get_last_visit_time() * 10));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/get_visit_times.rs b/component/dict/src/cmd/simple/get_visit_times.rs
index 6b92065..dc9e150 100644
--- a/component/dict/src/cmd/simple/get_visit_times.rs
+++ b/component/dict/src/cmd/simple/get_visit_times.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,11 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        let now = now_timestamp_ms();
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now)
+        {
             return Ok(Some(v.get_visit_times()));
         }
         Ok(None)
-- 
2.43.0


From e4c3b9b723d870f39acea6808732e1d76715ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 17/43] fix: the purge task removes expired keys, which the
 expiry-aware lookup hides

---
 component/db/src/expire.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index b36062a..80e06fc 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -153,7 +153,7 @@ impl Expiration {
                     None => continue,
                 };
                 debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
-                let res = match dict.get(&entry.key) {
+                let res = match dict.raw_get(&entry.key) {
                     // 如果过期时间更新过，可能会有时间不一样的情况
                     Some(value) if value.expires_at == entry.expires_at => {
                         Some(dict.remove(&entry.key))
@@ -182,7 +182,7 @@ pub fn scan_all(db: &Db) {
             None => return false,
         };
         // 只保留key存在，且过期时间能对上的记录
-        matches!(dict.get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
+        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
     });
 }
 
-- 
2.43.0


From e2c2ca020b3151b699d5ad27907111cb0a6e869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 18/43] fix: SET NX/XX replies nil when the condition is not
 met

---
 component/server/src/cmd/base/set.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index e621fa1..f4da3f1 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -31,6 +31,7 @@ impl Set {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
+        let nx_xx = self.nx_xx;
         let res = db.set(dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
@@ -46,6 +47,9 @@ impl Set {
         })?;
         let response = if get {
             data_type_to_frame(res)
+        } else if nx_xx.is_nx() && res != DataType::Null || nx_xx.is_xx() && res == DataType::Null {
+            // the condition was not met, nothing was set
+            Frame::Null
         } else {
             // async drop
             tokio::spawn(async { res });
-- 
2.43.0


From b393ece7ef9f0a4f3b3024c935a8b12b29a567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 19/43] fix: a negative count, time or slot is refused instead
 of becoming a huge number

---
 component/common/src/connection/parse/mod.rs    | 9 +++++++++
 component/common/src/options/freq.rs            | 2 +-
 component/common/src/options/idletime.rs        | 2 +-
 component/common/src/options/set_cmd_expires.rs | 8 ++++----
 component/macros/src/parse_frames.rs            | 7 +++++--
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index 011a946..cbedaa2 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -164,6 +164,15 @@ impl<'a> Parse<'a> {
     }
 
     /// Ensure there are no more entries in the array
+    /// # Errors
+    /// not an integer, or a negative one
+    #[inline]
+    pub fn next_uint(&self) -> Result<u64, ParseError> {
+        self.next_int()?
+            .try_into()
+            .map_err(|_| "ERR value is out of range, must be positive".into())
+    }
+
     /// # Errors
     /// if has more entries
     #[inline]
diff --git a/component/common/src/options/freq.rs b/component/common/src/options/freq.rs
index 38dacb7..d52e6b8 100644
--- a/component/common/src/options/freq.rs
+++ b/component/common/src/options/freq.rs
@@ -22,7 +22,7 @@ impl Freq {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "freq" => Some(Self::Some(parse.next_int()? as _)),
+            "freq" => Some(Self::Some(parse.next_uint()?)),
             _ => None,
         };
         Ok(res)
diff --git a/component/common/src/options/idletime.rs b/component/common/src/options/idletime.rs
index 88e4892..aa60943 100644
--- a/component/common/src/options/idletime.rs
+++ b/component/common/src/options/idletime.rs
@@ -22,7 +22,7 @@ impl IdleTime {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "idletime" => Some(Self::Some(parse.next_int()? as _)),
+            "idletime" => Some(Self::Some(parse.next_uint()?)),
             _ => None,
         };
         Ok(res)
diff --git a/component/common/src/options/set_cmd_expires.rs b/component/common/src/options/set_cmd_expires.rs
index 0189514..4ef6c48 100644
--- a/component/common/src/options/set_cmd_expires.rs
+++ b/component/common/src/options/set_cmd_expires.rs
@@ -26,10 +26,10 @@ impl SetCmdExpires {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "ex" => Some(Self::Ex(parse.next_int()? as _)),
-            "px" => Some(Self::Px(parse.next_int()? as _)),
-            "exat" => Some(Self::Exat(parse.next_int()? as _)),
-            "pxat" => Some(Self::Pxat(parse.next_int()? as _)),
+            "ex" => Some(Self::Ex(parse.next_uint()?)),
+            "px" => Some(Self::Px(parse.next_uint()?)),
+            "exat" => Some(Self::Exat(parse.next_uint()?)),
+            "pxat" => Some(Self::Pxat(parse.next_uint()?)),
             "keepttl" => Some(Self::Keepttl),
             _ => None,
         };
diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 6d5dd9b..326b56c 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -57,8 +57,11 @@ fn parse_simple(field_type: &Type, has_next: bool) -> proc_macro2::TokenStream {
             if *ident == "DataType" {
                 return quote! { crate::frame_parse::next_data_type(parse) };
             }
-            if *ident == "i64" || *ident == "u64" || *ident == "usize" {
-                return quote! { parse.next_int().map(|t|t as #field_type) };
+            if *ident == "i64" {
+                return quote! { parse.next_int() };
+            }
+            if *ident == "u64" || *ident == "usize" {
+                return quote! { parse.next_uint().map(|t|t as #field_type) };
             }
             if *ident == "Float" {
                 return quote! { parse.next_float() };
-- 
2.43.0


From 3bda65cbbbfcfecf4fc9a71ec747cdf74bf9bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 20/43] fix: an expire time that overflows is refused instead
 of wrapping or panicking

---
 component/common/src/options/expires_at.rs | 15 ++++++++++++++
 component/server/src/cmd/base/expire.rs    |  4 ++--
 component/server/src/cmd/base/expireat.rs  |  4 ++--
 component/server/src/cmd/base/pexpire.rs   |  4 ++--
 component/server/src/cmd/base/psetex.rs    | 23 ++++++++++------------
 component/server/src/cmd/base/set.rs       | 10 +++++++---
 component/server/src/cmd/base/setex.rs     | 23 ++++++++++------------
 component/server/src/cmd/others/restore.rs |  4 ++--
 8 files changed, 50 insertions(+), 37 deletions(-)

diff --git a/component/common/src/options/expires_at.rs b/component/common/src/options/expires_at.rs
index 789b8dc..0270e27 100644
--- a/component/common/src/options/expires_at.rs
+++ b/component/common/src/options/expires_at.rs
@@ -7,3 +7,18 @@ pub enum ExpiresAt {
     // 上一次时间
     Last,
 }
+
+impl ExpiresAt {
+    /// The deadline `from + amount * unit_ms`, in milliseconds
+    ///
+    /// # Errors
+    /// the deadline does not fit
+    #[inline]
+    pub fn deadline(from: u64, amount: u64, unit_ms: u64) -> crate::Result<u64> {
+        amount
+            .checked_mul(unit_ms)
+            .and_then(|ms| ms.checked_add(from))
+            .filter(|&t| t <= i64::MAX as u64)
+            .ok_or_else(|| "ERR invalid expire time".into())
+    }
+}
diff --git a/component/server/src/cmd/base/expire.rs b/component/server/src/cmd/base/expire.rs
index 5fbd4e1..9830c1e 100644
--- a/component/server/src/cmd/base/expire.rs
+++ b/component/server/src/cmd/base/expire.rs
@@ -1,7 +1,7 @@
 use common::{
     connection::parse::frame::Frame,
     now_timestamp_ms,
-    options::{GtLt, NxXx},
+    options::{ExpiresAt, GtLt, NxXx},
 };
 use db::Db;
 use macros::ParseFrames;
@@ -25,7 +25,7 @@ impl Expire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.seconds * 1000 + now_timestamp_ms(),
+            expires_at: ExpiresAt::deadline(now_timestamp_ms(), self.seconds, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/expireat.rs b/component/server/src/cmd/base/expireat.rs
index 1e9cb90..e0cd552 100644
--- a/component/server/src/cmd/base/expireat.rs
+++ b/component/server/src/cmd/base/expireat.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    options::{GtLt, NxXx},
+    options::{ExpiresAt, GtLt, NxXx},
 };
 use db::Db;
 use macros::ParseFrames;
@@ -24,7 +24,7 @@ impl Expireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.timestamp * 1000,
+            expires_at: ExpiresAt::deadline(0, self.timestamp, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpire.rs b/component/server/src/cmd/base/pexpire.rs
index 3b48f8d..826e83b 100644
--- a/component/server/src/cmd/base/pexpire.rs
+++ b/component/server/src/cmd/base/pexpire.rs
@@ -1,7 +1,7 @@
 use common::{
     connection::parse::frame::Frame,
     now_timestamp_ms,
-    options::{GtLt, NxXx},
+    options::{ExpiresAt, GtLt, NxXx},
 };
 use db::Db;
 use macros::ParseFrames;
@@ -25,7 +25,7 @@ impl Pexpire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds + now_timestamp_ms(),
+            expires_at: ExpiresAt::deadline(now_timestamp_ms(), self.milliseconds, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/psetex.rs b/component/server/src/cmd/base/psetex.rs
index e21ddae..2a4684b 100644
--- a/component/server/src/cmd/base/psetex.rs
+++ b/component/server/src/cmd/base/psetex.rs
@@ -17,22 +17,19 @@ pub struct Psetex {
     pub value: DataType,
 }
 
-impl From<Psetex> for dict::cmd::simple::set::Req {
-    #[inline]
-    fn from(old: Psetex) -> Self {
-        Self {
-            key: old.key,
-            value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.milliseconds),
-            nx_xx: NxXx::None,
-        }
-    }
-}
-
 impl Psetex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(dict::cmd::simple::set::Req {
+            key: self.key,
+            value: self.value,
+            expires_at: ExpiresAt::Specific(ExpiresAt::deadline(
+                now_timestamp_ms(),
+                self.milliseconds,
+                1,
+            )?),
+            nx_xx: NxXx::None,
+        })?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index f4da3f1..d488e2d 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -36,9 +36,13 @@ impl Set {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
-                SetCmdExpires::Ex(e) => ExpiresAt::Specific(now_timestamp_ms() + e * 1000),
-                SetCmdExpires::Px(e) => ExpiresAt::Specific(now_timestamp_ms() + e),
-                SetCmdExpires::Exat(e) => ExpiresAt::Specific(e * 1000),
+                SetCmdExpires::Ex(e) => {
+                    ExpiresAt::Specific(ExpiresAt::deadline(now_timestamp_ms(), e, 1000)?)
+                }
+                SetCmdExpires::Px(e) => {
+                    ExpiresAt::Specific(ExpiresAt::deadline(now_timestamp_ms(), e, 1)?)
+                }
+                SetCmdExpires::Exat(e) => ExpiresAt::Specific(ExpiresAt::deadline(0, e, 1000)?),
                 SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
diff --git a/component/server/src/cmd/base/setex.rs b/component/server/src/cmd/base/setex.rs
index a771bd2..109cff7 100644
--- a/component/server/src/cmd/base/setex.rs
+++ b/component/server/src/cmd/base/setex.rs
@@ -17,22 +17,19 @@ pub struct Setex {
     pub value: DataType,
 }
 
-impl From<Setex> for dict::cmd::simple::set::Req {
-    #[inline]
-    fn from(old: Setex) -> Self {
-        Self {
-            key: old.key,
-            value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.seconds * 1000),
-            nx_xx: NxXx::None,
-        }
-    }
-}
-
 impl Setex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(dict::cmd::simple::set::Req {
+            key: self.key,
+            value: self.value,
+            expires_at: ExpiresAt::Specific(ExpiresAt::deadline(
+                now_timestamp_ms(),
+                self.seconds,
+                1000,
+            )?),
+            nx_xx: NxXx::None,
+        })?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 6ff2735..435bf60 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -1,6 +1,6 @@
 use common::{
     now_timestamp_ms,
-    options::{Freq, IdleTime},
+    options::{ExpiresAt, Freq, IdleTime},
 };
 use db::Db;
 use macros::ParseFrames;
@@ -27,7 +27,7 @@ impl Restore<'_> {
         let ttl = if self.absttl {
             self.ttl
         } else if self.ttl > 0 {
-            now_timestamp_ms() + self.ttl
+            ExpiresAt::deadline(now_timestamp_ms(), self.ttl, 1)?
         } else {
             0
         };
-- 
2.43.0


From e6fcc19cb2bfb68fab7bfe77c9366fdd1cdf938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 21/43] fix: an absolute expire time of 0 expires the key
 instead of making it persistent

---
 component/common/src/options/expires_at.rs | 2 ++
 component/server/src/cmd/base/pexpireat.rs | 4 ++--
 component/server/src/cmd/base/set.rs       | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/component/common/src/options/expires_at.rs b/component/common/src/options/expires_at.rs
index 0270e27..58f8d3b 100644
--- a/component/common/src/options/expires_at.rs
+++ b/component/common/src/options/expires_at.rs
@@ -19,6 +19,8 @@ impl ExpiresAt {
             .checked_mul(unit_ms)
             .and_then(|ms| ms.checked_add(from))
             .filter(|&t| t <= i64::MAX as u64)
+            // 0 means no deadline
+            .map(|t| t.max(1))
             .ok_or_else(|| "ERR invalid expire time".into())
     }
 }
diff --git a/component/server/src/cmd/base/pexpireat.rs b/component/server/src/cmd/base/pexpireat.rs
index 6b32d57..5dcdc51 100644
--- a/component/server/src/cmd/base/pexpireat.rs
+++ b/component/server/src/cmd/base/pexpireat.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    options::{GtLt, NxXx},
+    options::{ExpiresAt, GtLt, NxXx},
 };
 use db::Db;
 use macros::ParseFrames;
@@ -24,7 +24,7 @@ impl Pexpireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds_timestamp,
+            expires_at: ExpiresAt::deadline(0, self.milliseconds_timestamp, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index d488e2d..62ef4f4 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -43,7 +43,7 @@ impl Set {
                     ExpiresAt::Specific(ExpiresAt::deadline(now_timestamp_ms(), e, 1)?)
                 }
                 SetCmdExpires::Exat(e) => ExpiresAt::Specific(ExpiresAt::deadline(0, e, 1000)?),
-                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
+                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(ExpiresAt::deadline(0, e, 1)?),
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
-- 
2.43.0


From 21bb2c2de22c6b6775054528d05181c6e9a879e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 22/43] fix: access statistics no longer underflow or overflow

---
 component/common/src/options/freq.rs       | 5 ++++-
 component/dict/src/lib.rs                  | 2 +-
 component/server/src/cmd/others/object.rs  | 2 +-
 component/server/src/cmd/others/restore.rs | 9 ++++-----
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/component/common/src/options/freq.rs b/component/common/src/options/freq.rs
index d52e6b8..12a0953 100644
--- a/component/common/src/options/freq.rs
+++ b/component/common/src/options/freq.rs
@@ -22,7 +22,10 @@ impl Freq {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "freq" => Some(Self::Some(parse.next_uint()?)),
+            "freq" => match parse.next_uint()? {
+                i if i <= u64::from(u16::MAX) => Some(Self::Some(i)),
+                _ => return Err("ERR Invalid FREQ value".into()),
+            },
             _ => None,
         };
         Ok(res)
diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 9df8e65..134a083 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -110,7 +110,7 @@ impl Value {
         let old_last_desc_time = self.get_last_desc_time();
         let last_desc_time = Self::get_min(now);
         // todo diff / minutes
-        let diff = last_desc_time - old_last_desc_time;
+        let diff = last_desc_time.wrapping_sub(old_last_desc_time) & ((1 << 16) - 1);
         let mut visit_times = self.get_visit_times();
         if diff > visit_times {
             visit_times = 0;
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index a3608e4..0fbbf23 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -25,7 +25,7 @@ impl Object<'_> {
                 })?
             {
                 #[allow(clippy::cast_possible_wrap)]
-                Ok(Frame::Integer((now_timestamp_ms() / 1000 - u) as _))
+                Ok(Frame::Integer((now_timestamp_ms() / 1000).saturating_sub(u) as _))
             } else {
                 Err("idletiem key not exists".into())
             };
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 435bf60..c6f5bdd 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -36,11 +36,10 @@ impl Restore<'_> {
             value: self.serialized_value,
             expires_at: ttl,
             replace: self.replace,
-            last_visit_time: now_timestamp_ms() / 1000
-                - match self.idle_time {
-                    IdleTime::Some(i) => i,
-                    IdleTime::None => 0,
-                },
+            last_visit_time: (now_timestamp_ms() / 1000).saturating_sub(match self.idle_time {
+                IdleTime::Some(i) => i,
+                IdleTime::None => 0,
+            }),
             freq: match self.freq {
                 Freq::Some(i) => i,
                 Freq::None => 0,
-- 
2.43.0


From 953fba233af2dd7aaa1fae62ae5bcc5ad620997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 23/43] fix: SYNCSNAPSHOT of a slot that does not exist is
 refused instead of a panic

---
 component/server/src/cmd/syncsnapshot.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4f20c77..5e59443 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -26,12 +26,12 @@ impl SyncSnapshot {
                 .iter()
                 .map(|t| (t.slot_id, t.share_status.lock()))
                 .collect()
-        } else {
+        } else if let Some(slot) = handler.db.slots.get(self.slot_id) {
             // 指定的slot
-            vec![(
-                self.slot_id,
-                handler.db.get_slot_by_id(self.slot_id).share_status.lock(),
-            )]
+            vec![(self.slot_id, slot.share_status.lock())]
+        } else {
+            error!("slot not exists: {}", self.slot_id);
+            return;
         };
 
         match unsafe { nix::unistd::fork() } {
-- 
2.43.0


From a9522fae18abc63b0022b149ecb46b3718e2ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 24/43] fix: the snapshot stream writes slot ids in the width
 the replica reads

---
 component/server/src/cmd/syncsnapshot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 5e59443..7fedeab 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -52,7 +52,7 @@ impl SyncSnapshot {
                     let mut stream = stream.into_std()?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
-                            bincode::serialize_into(&mut stream, &Some(id))?;
+                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                             bincode::serialize_into(&mut stream, &s.dict)?;
                         }
                     }
-- 
2.43.0


From da6f7858e1de8ed25c093ef5b91c6f9d755004c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 25/43] fix: the snapshot is written to a blocking stream so
 that a full buffer does not cut it

---
 component/server/src/cmd/syncsnapshot.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 7fedeab..b7a11b8 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -50,6 +50,7 @@ impl SyncSnapshot {
                 // parent restarts it can bind/lock despite the child possibly still running.
                 let run = |stream: TcpStream| -> common::Result<()> {
                     let mut stream = stream.into_std()?;
+                    stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
                             bincode::serialize_into(&mut stream, &Some(id as u16))?;
-- 
2.43.0


From ab4e5acff7f0bfbbc32f94425d521f4013d60e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 26/43] fix: a number followed by other characters is not an
 integer

---
 component/common/src/connection/parse/mod.rs | 7 ++++---
 component/dict/src/data_type/mod.rs          | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index cbedaa2..aceaf47 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -147,8 +147,6 @@ impl<'a> Parse<'a> {
     /// returned.
     #[inline]
     pub fn next_int(&self) -> Result<i64, ParseError> {
-        use atoi::atoi;
-
         const INVALID: &str = "protocol error; invalid number";
 
         match self.next_frame()? {
@@ -157,7 +155,10 @@ impl<'a> Parse<'a> {
             // Simple and bulk frames must be parsed as integers. If the parsing
             // fails, an error is returned.
             Frame::Bulk(data) | Frame::Simple(data) => {
-                atoi::<i64>(data).map_or_else(|| Err(INVALID.into()), Ok)
+                str::from_utf8(data)
+                    .ok()
+                    .and_then(|s| s.parse().ok())
+                    .ok_or_else(|| INVALID.into())
             }
             frame => Err(format!("protocol error; expected int frame but got {:?}", frame).into()),
         }
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 893e199..def483f 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,7 +58,9 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => atoi::atoi::<i64>(b)
+            DataType::String(b) | DataType::Bytes(b) => std::str::from_utf8(b)
+                .ok()
+                .and_then(|s| s.parse().ok())
                 .ok_or_else::<Self::Error, _>(|| {
                     "value is not an integer or out of range".into()
                 })?,
-- 
2.43.0


From d320704758fe54100a3d84c7730d10f152debda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 27/43] fix: a malformed length or integer is a protocol error
 instead of 0

---
 .../common/src/connection/parse/frame.rs      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 86ee175..0e0777d 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -6,7 +6,7 @@ use std::{convert::TryFrom, fmt, vec};
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_while, take_while1, take_while_m_n},
-    combinator::map,
+    combinator::map_opt,
     sequence::delimited,
 };
 
@@ -102,13 +102,16 @@ fn parse_error(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     Ok((i, Frame::Error(resp)))
 }
 
+#[inline]
+fn decimal(i: &[u8]) -> Option<i64> {
+    std::str::from_utf8(i).ok()?.parse().ok()
+}
+
 #[inline]
 fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, int) = delimited(
         tag(":"),
-        map(take_while1(|c| c != b'\r' && c != b'\n'), |int: &[u8]| {
-            atoi::atoi::<i64>(int).unwrap_or(0)
-        }),
+        map_opt(take_while1(|c| c != b'\r' && c != b'\n'), decimal),
         tag(b"\r\n"),
     )(i)?;
     Ok((i, Frame::Integer(int)))
@@ -117,9 +120,7 @@ fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("$")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), decimal)(i)?;
     let (i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
@@ -134,9 +135,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), decimal)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
-- 
2.43.0


From 9e2b52438bf639ceb0e5fb5c9fb48d6b0bd5ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 28/43] fix: deeply nested arrays are a protocol error instead
 of a stack overflow

---
 .../common/src/connection/parse/frame.rs      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 0e0777d..a9a8b60 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -132,17 +132,26 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     }
 }
 
+/// Nesting allowed in a request, the parser recurses once per level
+const MAX_DEPTH: usize = 32;
+
 #[inline]
-fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
     let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), decimal)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
     } else {
+        if depth >= MAX_DEPTH {
+            return Err(nom::Err::Failure(nom::error::Error::new(
+                i,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         let mut res = vec![];
         for _ in 0..len {
-            let (ni, f) = parse_alt(i)?;
+            let (ni, f) = parse_nested(i, depth + 1)?;
             res.push(f);
             i = ni;
         }
@@ -162,12 +171,17 @@ fn parse_ping(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 /// parse failed
 #[inline]
 fn parse_alt(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+    parse_nested(i, 0)
+}
+
+#[inline]
+fn parse_nested(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     alt((
         parse_simple,
         parse_error,
         parse_int,
         parse_bulk,
-        parse_array,
+        |i| parse_array(i, depth),
         parse_ping,
     ))(i)
 }
-- 
2.43.0


From 0bc32625dd56b0754c2f5f5f9aa03677c2611510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 29/43] fix: an unknown trailing option is a syntax error
 instead of being ignored

---
 component/macros/src/parse_frames.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 326b56c..5a2ecf9 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -320,6 +320,14 @@ pub fn do_derive(ast: &DeriveInput) -> proc_macro2::TokenStream {
         has_next = false;
     }
     read_token.push(parse_optional_fields(&optional_fields));
+    if !optional_fields.is_empty() {
+        // the frame that ended the options is not one of them
+        read_token.push(quote! {
+            if let Ok(f) = next {
+                return Err(format!("ERR syntax error, unexpected {:?}", f).into());
+            }
+        });
+    }
     let self_token = utils::derive_get_struct_fields(ast)
         .unwrap()
         .iter()
-- 
2.43.0


From 86c4a78ce6f05f2001878473c8a48ecf0fac06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 30/43] fix: a line end inside a simple string or an error no
 longer breaks the reply framing

---
 .../common/src/connection/parse/frame.rs      | 47 ++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index a9a8b60..a893d42 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -200,33 +200,46 @@ pub fn parse(i: &[u8]) -> crate::Result<Option<(usize, Frame)>> {
     }
 }
 
+#[inline]
+const fn is_line_end(c: u8) -> bool {
+    c == b'\r' || c == b'\n'
+}
+
+#[inline]
+fn write_bulk(b: &[u8], res: &mut Vec<u8>) {
+    res.push(b'$');
+    res.extend_from_slice(b.len().to_string().as_bytes());
+    res.extend_from_slice(b"\r\n");
+    res.extend_from_slice(b);
+    res.extend_from_slice(b"\r\n");
+}
+
+/// A simple string can not contain a line end, only a bulk string can
+#[inline]
+fn write_simple(a: &[u8], res: &mut Vec<u8>) {
+    if a.iter().copied().any(is_line_end) {
+        return write_bulk(a, res);
+    }
+    res.push(b'+');
+    res.extend_from_slice(a);
+    res.extend_from_slice(b"\r\n");
+}
+
 impl Frame<'_> {
     #[inline]
     pub fn write(&self, res: &mut Vec<u8>) {
         match self {
-            Frame::Simple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedStringSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a.as_bytes());
-                res.extend_from_slice(b"\r\n");
-            }
+            Frame::Simple(a) => write_simple(a, res),
+            Frame::OwnedSimple(a) => write_simple(a, res),
+            Frame::OwnedStringSimple(a) => write_simple(a.as_bytes(), res),
             Frame::Error(a) => {
                 res.push(b'-');
-                res.extend_from_slice(a);
+                res.extend(a.iter().map(|&c| if is_line_end(c) { b' ' } else { c }));
                 res.extend_from_slice(b"\r\n");
             }
             Frame::OwnedError(a) => {
                 res.push(b'-');
-                res.extend_from_slice(a.as_bytes());
+                res.extend(a.as_bytes().iter().map(|&c| if is_line_end(c) { b' ' } else { c }));
                 res.extend_from_slice(b"\r\n");
             }
             Frame::Integer(a) => {
-- 
2.43.0


From 1b7760e92082e30096bee67b2925ee47d6d3d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 31/43] fix: an empty hash tag hashes the whole key

---
 component/db/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index caf9b76..b804d16 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -81,7 +81,9 @@ impl Db {
     fn get_slot(&self, mut key: &[u8]) -> &Slot {
         if let Some(begin) = key.iter().position(|t| *t == b'{') {
             if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
-                key = &key[begin + 1..begin + end];
+                if end > 1 {
+                    key = &key[begin + 1..begin + end];
+                }
             }
         }
         let i = CRC_HASH.checksum(key) & SIZE_MOD;
-- 
2.43.0


From 36e246aaa3eedeb64c1da2a1a6fc3075c1a16809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 32/43] fix: an invalid command gets an error reply instead of
 a closed connection

---
 component/server/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/component/server/src/lib.rs b/component/server/src/lib.rs
index ddefc12..65c035b 100644
--- a/component/server/src/lib.rs
+++ b/component/server/src/lib.rs
@@ -229,16 +229,16 @@ impl Handler {
             // Convert the redis frame into a command struct. This returns an
             // error if the frame is not a valid redis command or it is an
             // unsupported command.
-            let cmd = Command::from_frame(frame)?;
-            let res = match cmd {
-                Command::Read(o) => o.apply(&self.db),
-                Command::Write(o) => o.apply(&self.db),
-                Command::Ping => Ok(Frame::Pong),
-                Command::SyncSnapshot(o) => {
+            let res = match Command::from_frame(frame) {
+                Ok(Command::Read(o)) => o.apply(&self.db),
+                Ok(Command::Write(o)) => o.apply(&self.db),
+                Ok(Command::Ping) => Ok(Frame::Pong),
+                Ok(Command::SyncSnapshot(o)) => {
                     o.apply(self);
                     return Ok(());
                 }
-                Command::Unknown(o) => Ok(o.apply()),
+                Ok(Command::Unknown(o)) => Ok(o.apply()),
+                Err(e) => Err(e),
             };
             // Perform the work needed to apply the command. This may mutate the
             // database state as a result.
-- 
2.43.0


From 53dd9f0f6e5797d8f66cafcdd3890692d7dc4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 33/43] fix: syncing one slot does not block the other slots
 for ever

---
 component/db/src/pd_handle/replica.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f4a47e2..517ec7e 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -81,9 +81,12 @@ impl Inner {
     }
 
     fn lock_slot(&self, slot_id: usize) {
-        if slot_id != SLOT_SIZE {}
-        for l in &self.snapshot_lock {
-            l.store(true, std::sync::atomic::Ordering::Relaxed);
+        if slot_id == SLOT_SIZE {
+            for l in &self.snapshot_lock {
+                l.store(true, std::sync::atomic::Ordering::Relaxed);
+            }
+        } else {
+            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
         }
     }
 
-- 
2.43.0


From bce506f520cec1fc7c49a09213c8a991c7d70609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 34/43] fix: a failed snapshot releases the slots and allows
 the next attempt

---
 component/db/src/pd_handle/replica.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 517ec7e..3931489 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -54,6 +54,13 @@ impl Inner {
             if let Err(e) = self.sync_snapshot_without_lock(slot_id) {
                 error!("sync_snapshot error: {:?}", e);
             }
+            // also after a failure: the slots are retried by the next command
+            for l in &self.snapshot_lock {
+                l.store(false, std::sync::atomic::Ordering::Release);
+            }
+            self.snapshot_syncing
+                .store(false, std::sync::atomic::Ordering::Release);
+            self.notify_lock_update.notify_one();
         });
 
         Ok(())
@@ -74,9 +81,6 @@ impl Inner {
             self.db.replace_dict(slot_id, dict);
             self.snapshot_lock[slot_id].store(false, std::sync::atomic::Ordering::Release);
         }
-        self.snapshot_syncing
-            .store(false, std::sync::atomic::Ordering::Release);
-        self.notify_lock_update.notify_one();
         Ok(())
     }
 
-- 
2.43.0


From 9095d7c9bbc165c39267be311216bd03c2296898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 35/43] fix: a replica stops consuming a lost or replaced
 leader connection instead of spinning

---
 component/db/src/pd_handle/replica.rs | 41 +++++++++++++--------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 3931489..794d8d9 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -94,27 +94,25 @@ impl Inner {
         }
     }
 
-    async fn process_cmd(self: Arc<Self>) {
-        loop {
-            if let Some(rx) = self.cmd_rx.load().as_ref() {
-                if let Ok(msg) = rx.recv_async().await {
-                    let slot_id = msg.slot;
-                    loop {
-                        self.wait_slot(slot_id).await;
-                        if std::cmp::Ordering::Greater
-                            == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
-                        {
-                            if let Err(e) = self.clone().sync_snapshot(slot_id) {
-                                warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
-                                tokio::time::sleep(Duration::from_secs(1)).await;
-                            }
-                        } else {
-                            break;
-                        }
+    async fn process_cmd(self: Arc<Self>, rx: Arc<flume::Receiver<Message>>) {
+        while let Ok(msg) = rx.recv_async().await {
+            // closed, or replaced by a connection to another leader
+            if !matches!(self.cmd_rx.load().as_ref(), Some(current) if Arc::ptr_eq(current, &rx)) {
+                return;
+            }
+            let slot_id = msg.slot;
+            loop {
+                self.wait_slot(slot_id).await;
+                if std::cmp::Ordering::Greater
+                    == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
+                {
+                    if let Err(e) = self.clone().sync_snapshot(slot_id) {
+                        warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
+                        tokio::time::sleep(Duration::from_secs(1)).await;
                     }
+                } else {
+                    break;
                 }
-            } else {
-                return;
             }
         }
     }
@@ -130,8 +128,9 @@ impl Inner {
                 error!("sync_cmd error: {:?}", e);
             }
         });
-        self.cmd_rx.store(Some(Arc::new(rx)));
-        tokio::spawn(self.process_cmd());
+        let rx = Arc::new(rx);
+        self.cmd_rx.store(Some(rx.clone()));
+        tokio::spawn(self.process_cmd(rx));
         Ok(())
     }
 }
-- 
2.43.0


From a278782a989b1ec52a72319b5e19b09728a5cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 36/43] fix: the status assigned by the pd is kept, so that
 heartbeats carry the right ids

---
 component/db/src/pd_handle/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 46ca38c..004eca8 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -100,9 +100,7 @@ impl PdHandle {
                 self.replica_task.close_sync_cmd();
                 self.latest_status = status;
             }
-            _ => {
-                // do nothing
-            }
+            _ => self.latest_status = status,
         }
         Ok(())
     }
-- 
2.43.0


From 89a6b8dc84f303ce7550cdf5c5799117d92b0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 37/43] fix: failed snapshots are retried with a delay

---
 component/db/src/pd_handle/replica.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 794d8d9..f87c14a 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -53,6 +53,7 @@ impl Inner {
         tokio::task::spawn_blocking(move || {
             if let Err(e) = self.sync_snapshot_without_lock(slot_id) {
                 error!("sync_snapshot error: {:?}", e);
+                std::thread::sleep(Duration::from_secs(1));
             }
             // also after a failure: the slots are retried by the next command
             for l in &self.snapshot_lock {
-- 
2.43.0


From bd3fcb6b8e75d3127f07c13671bee99fb897c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 38/43] fix: FLUSHALL and RESTORE reach the replicas, and
 FLUSHALL keeps the write sequence

---
 component/db/src/slot.rs                | 12 +++++++++++
 component/db/src/slot/replica_update.rs | 28 ++++++++++++++++++++++++-
 component/dict/src/cmd/mod.rs           |  2 ++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 5589406..50cb2e0 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -162,8 +162,20 @@ impl Slot {
     pub(crate) fn flush(&self, sync: bool) {
         let mut status = self.share_status.lock();
         if let Some(inner) = &mut *status {
+            if inner.dict.is_empty() {
+                return;
+            }
+            let id = inner.dict.next_id();
             let old = std::mem::take(inner);
+            inner.dict.set_write_id(id);
             drop(status);
+            if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
+                id,
+                slot: self.slot_id,
+                cmd: cmd::WriteCmd::Flush,
+            }) {
+                error!("flush: {:?}", e);
+            };
             if !sync {
                 tokio::task::spawn_blocking(|| old);
             }
diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 0854a6d..9b561c4 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -28,10 +28,36 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByRankRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
-            cmd::WriteCmd::None => Ordering::Equal,
+            cmd::WriteCmd::Flush => self.update_flush(id),
+            cmd::WriteCmd::None => self.update_unknown(id),
         }
     }
 
+    fn update_flush(&self, id: u64) -> Ordering {
+        let mut share_status = self.share_status.lock();
+        share_status.as_mut().map_or(Ordering::Greater, |s| {
+            let res = id.cmp(&(s.dict.last_write_op_id() + 1));
+            if res == Ordering::Equal {
+                s.dict = MemDict::default();
+                s.dict.set_write_id(id);
+            }
+            res
+        })
+    }
+
+    /// A heartbeat (id 0), or a write that can only be synced by a snapshot
+    fn update_unknown(&self, id: u64) -> Ordering {
+        self.share_status
+            .lock()
+            .as_mut()
+            .map_or(Ordering::Greater, |s| {
+                match id.cmp(&s.dict.last_write_op_id()) {
+                    Ordering::Greater => Ordering::Greater,
+                    _ => Ordering::Less,
+                }
+            })
+    }
+
     fn call_update<T, C: Write<T, MemDict> + Clone>(&self, id: u64, cmd: C) -> Ordering {
         self.share_status
             .lock()
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 01b1b35..b32c7db 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -81,4 +81,6 @@ pub enum WriteCmd {
     SortedSetRemoveByLexRange(sorted_set::remove_by_lex_range::Req),
     // 心跳返回值也用这个
     None,
+    // clear the whole slot
+    Flush,
 }
-- 
2.43.0


From eb7acb4fb1155159ff2369e91f544432133f2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:51 +0000
Subject: [PATCH 39/43] fix: replication and expiry-index messages are sent in
 the order of the writes

---
 component/db/src/slot.rs                | 37 ++++++++++++-------------
 component/db/src/slot/replica_update.rs |  3 +-
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 50cb2e0..fd91bb6 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -46,6 +46,7 @@ impl Slot {
     /// 如果快照复制过来的, 过期数据并不多
     #[inline]
     pub fn replace_dict(&self, dict: MemDict) {
+        let mut share_status = self.share_status.lock();
         if let Err(e) = self
             .bg_task
             .expire_sender
@@ -63,7 +64,7 @@ impl Slot {
                 key: k.clone(),
             })
             .collect();
-        *self.share_status.lock() = Some(Box::new(ShareStatus { dict }));
+        *share_status = Some(Box::new(ShareStatus { dict }));
         if let Err(e) = self
             .bg_task
             .expire_sender
@@ -76,16 +77,14 @@ impl Slot {
     #[inline]
     fn call_write<T, C: Write<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
-        // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        // 加锁执行命令, 消息也在锁内发送, 保证消息和执行的顺序一致
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
+        let id = s.dict.next_id();
+        let res = cc.apply(&mut s.dict);
 
         // 转发执行完成的请求
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
@@ -102,16 +101,14 @@ impl Slot {
     #[inline]
     fn call_expires_write<T, C: ExpiresOp<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
-        // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        // 加锁执行命令, 消息也在锁内发送, 保证消息和执行的顺序一致
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
+        let id = s.dict.next_id();
+        let res = cc.apply(&mut s.dict);
 
         let res = match res {
             Ok(ExpiresOpResp {
@@ -168,7 +165,6 @@ impl Slot {
             let id = inner.dict.next_id();
             let old = std::mem::take(inner);
             inner.dict.set_write_id(id);
-            drop(status);
             if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
                 id,
                 slot: self.slot_id,
@@ -176,6 +172,7 @@ impl Slot {
             }) {
                 error!("flush: {:?}", e);
             };
+            drop(status);
             if !sync {
                 tokio::task::spawn_blocking(|| old);
             }
diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 9b561c4..f8b5079 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -82,7 +82,8 @@ impl Slot {
         id: u64,
         cmd: C,
     ) -> Ordering {
-        let res = if let Some(s) = &mut *self.share_status.lock() {
+        let mut share_status = self.share_status.lock();
+        let res = if let Some(s) = &mut *share_status {
             match id.cmp(&(s.dict.last_write_op_id() + 1)) {
                 Ordering::Less => return Ordering::Less,
                 Ordering::Equal => {
-- 
2.43.0


From 6ce81feaea2c6b1e5129a3bd049dabb1428938f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 40/43] fix: the end of a snapshot wakes every task that waits
 for it

---
 component/db/src/pd_handle/replica.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f87c14a..296e94b 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -31,8 +31,10 @@ struct Inner {
 impl Inner {
     async fn wait_slot(&self, slot_id: usize) {
         loop {
+            // registered before the check, a wakeup in between is not lost
+            let notified = self.notify_lock_update.notified();
             if self.snapshot_lock[slot_id].load(std::sync::atomic::Ordering::Acquire) {
-                self.notify_lock_update.notified().await;
+                notified.await;
             } else {
                 break;
             }
@@ -61,7 +63,7 @@ impl Inner {
             }
             self.snapshot_syncing
                 .store(false, std::sync::atomic::Ordering::Release);
-            self.notify_lock_update.notify_one();
+            self.notify_lock_update.notify_waiters();
         });
 
         Ok(())
-- 
2.43.0


From 5956df36a0a68a83a3797a1a3ee281b476877921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 41/43] fix: no command of a replaced leader is applied after
 the snapshot of the new one

---
 component/db/src/pd_handle/mod.rs     | 3 ++-
 component/db/src/pd_handle/replica.rs | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 004eca8..941d562 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -89,7 +89,8 @@ impl PdHandle {
             (_, ServerRole::Follower)
                 if self.latest_status.current_leader != status.current_leader =>
             {
-                // update leader
+                // update leader, no command of the old one may follow the snapshot of the new one
+                self.replica_task.close_sync_cmd();
                 self.replica_task.update_leader(status.current_leader);
                 self.replica_task.sync_all_snapshot()?;
                 self.replica_task.sync_cmd()?;
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 296e94b..bab4020 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -99,13 +99,13 @@ impl Inner {
 
     async fn process_cmd(self: Arc<Self>, rx: Arc<flume::Receiver<Message>>) {
         while let Ok(msg) = rx.recv_async().await {
-            // closed, or replaced by a connection to another leader
-            if !matches!(self.cmd_rx.load().as_ref(), Some(current) if Arc::ptr_eq(current, &rx)) {
-                return;
-            }
             let slot_id = msg.slot;
             loop {
                 self.wait_slot(slot_id).await;
+                // closed, or replaced by a connection to another leader
+                if !matches!(self.cmd_rx.load().as_ref(), Some(current) if Arc::ptr_eq(current, &rx)) {
+                    return;
+                }
                 if std::cmp::Ordering::Greater
                     == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
                 {
-- 
2.43.0


From 1930b30366e18efab836029b16daeadb18062505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:11 +0000
Subject: [PATCH 42/43] fix: a snapshot connection leaves the reactor before
 the fork, so that no snapshot is lost

---
 component/server/src/cmd/syncsnapshot.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index b7a11b8..84e2e39 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -1,10 +1,9 @@
-use std::process::exit;
+use std::{net::TcpStream, process::exit};
 
 use common::SLOT_SIZE;
 use db::child_process;
 use macros::ParseFrames;
 use nix::unistd::ForkResult;
-use tokio::net::TcpStream;
 use tracing::{error, info};
 
 use crate::Handler;
@@ -34,6 +33,16 @@ impl SyncSnapshot {
             return;
         };
 
+        // The child shares the reactor, the stream has to leave it before the fork:
+        // the one that leaves it second would get an error
+        let stream = match handler.connection.stream.into_std() {
+            Ok(stream) => stream,
+            Err(e) => {
+                error!("send snapshot error: {:?}", e);
+                return;
+            }
+        };
+
         match unsafe { nix::unistd::fork() } {
             Ok(ForkResult::Parent { child }) => {
                 info!(
@@ -48,8 +57,7 @@ impl SyncSnapshot {
                 // of the parent process, e.g. fd(socket or flock) etc.
                 // should close the resources not used by the child process, so that if the
                 // parent restarts it can bind/lock despite the child possibly still running.
-                let run = |stream: TcpStream| -> common::Result<()> {
-                    let mut stream = stream.into_std()?;
+                let run = |mut stream: TcpStream| -> common::Result<()> {
                     stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
@@ -61,7 +69,7 @@ impl SyncSnapshot {
                     bincode::serialize_into(&mut stream, &end)?;
                     Ok(())
                 };
-                match run(handler.connection.stream) {
+                match run(stream) {
                     Ok(_) => {}
                     Err(e) => error!("send snapshot error: {:?}", e),
                 }
-- 
2.43.0


From 952e6a79c0ac36651084a9b5549c79d35efeddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:25 +0000
Subject: [PATCH 43/43] fix: do not hold the lock of the leader while
 connecting to it

---
 component/db/src/pd_handle/replica.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index bab4020..3bfc109 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -70,8 +70,9 @@ impl Inner {
     }
 
     fn sync_snapshot_without_lock(&self, slot_id: usize) -> common::Result<()> {
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader not exists")?.server_addr)?;
+        // not locked while connecting
+        let leader = *self.leader.lock();
+        let mut stream = TcpStream::connect(leader.ok_or("leader not exists")?.server_addr)?;
         let req: Vec<_> = (&Frame::Array(vec![
             Frame::Bulk(b"syncsnapshot"[..].into()),
             Frame::Integer(slot_id as _),
@@ -122,8 +123,8 @@ impl Inner {
 
     fn sync_cmd(self: Arc<Self>) -> common::Result<()> {
         let (tx, rx) = flume::unbounded();
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader is none")?.forward_addr)?;
+        let leader = *self.leader.lock();
+        let mut stream = TcpStream::connect(leader.ok_or("leader is none")?.forward_addr)?;
         stream.write_all(SYNC_CMD)?;
         let stream = BufReader::new(stream);
         tokio::task::spawn_blocking(move || {
-- 
2.43.0

