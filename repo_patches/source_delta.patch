From b76d86f8b1a0a6914125b9024d3c051259282504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 01/36] fix: keep the millisecond unit of Time32 scalar values
 when persisting them

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From 391d0f46f8cb4a58b3b4fc617e4b733bc7aba76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 02/36] fix: a reversed time range has no time columns instead
 of running off the calendar

---
 src/common/src/query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/src/query.rs b/src/common/src/query.rs
index 0a24735..46ac7e9 100644
--- a/src/common/src/query.rs
+++ b/src/common/src/query.rs
@@ -468,6 +468,9 @@ pub fn time_columns(
 ) -> Vec<String> {
     let from = date_trunc(granularity, from).unwrap();
     let to = date_trunc(granularity, to).unwrap();
+    if to < from {
+        return vec![];
+    }
     let rule = match granularity {
         TimeIntervalUnit::Hour => DateRule::hourly(from),
         TimeIntervalUnit::Day => DateRule::daily(from),
-- 
2.43.0


From 9331a91acc24db0ba69766c16a7117cab36ebacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 03/36] fix: report rejected metadata requests as client errors
 in the ingestion API

---
 src/ingester/src/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ingester/src/error.rs b/src/ingester/src/error.rs
index 57fa152..03d0859 100644
--- a/src/ingester/src/error.rs
+++ b/src/ingester/src/error.rs
@@ -36,6 +36,8 @@ impl IntoResponse for IngesterError {
             IngesterError::Metadata(err) => match err {
                 MetadataError::AlreadyExists(err) => ApiError::conflict(err).into_response(),
                 MetadataError::NotFound(err) => ApiError::not_found(err).into_response(),
+                MetadataError::BadRequest(err) => ApiError::bad_request(err).into_response(),
+                MetadataError::Forbidden(err) => ApiError::forbidden(err).into_response(),
                 MetadataError::Internal(err) => ApiError::internal(err).into_response(),
                 _ => ApiError::internal(err.to_string()).into_response(),
             },
-- 
2.43.0


From 3716855182d674a19f3e37337b922c777c202244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 04/36] fix: list every team of an organization, not only the
 first

---
 src/metadata/src/teams.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..b58cde2 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -118,10 +118,9 @@ impl Teams {
             let (key, value) = kv?;
             // check if key contains the prefix
             if key.len() < prefix.len() || !prefix.as_slice().cmp(&key[..prefix.len()]).is_eq() {
-                continue;
+                break;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 2ad11544d229eb37211d3f9d38de0b563c52c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 05/36] fix: account update applies the role it was given

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..707c462 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -145,6 +145,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From 01f82d7c35d41c2b63c4f182beb019e3f8c3eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 06/36] fix: a failed event creation leaves nothing behind

---
 src/metadata/src/events.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..f4e098f 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -209,9 +209,10 @@ impl Events {
 
     pub fn create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+
+        Ok(ret)
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
@@ -222,9 +223,10 @@ impl Events {
             other => return other,
         }
 
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+
+        Ok(ret)
     }
 
     pub fn get_by_id(&self, project_id: u64, id: u64) -> Result<Event> {
-- 
2.43.0


From 1fb80801e8753e5bbc2be039d4758d08daa2bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 07/36] fix: detaching a property an event does not have is a
 not-found error

---
 src/metadata/src/events.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index f4e098f..f8132c9 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -98,8 +98,8 @@ macro_rules! detach_property {
             }
             Some(props) => match props.iter().find(|x| $prop_id == **x) {
                 None => {
-                    return Err(MetadataError::AlreadyExists(
-                        "property already exist".to_string(),
+                    return Err(MetadataError::NotFound(
+                        format!("property {} not found", $prop_id).to_string(),
                     ));
                 }
                 Some(_) => Some(props.into_iter().filter(|x| $prop_id != *x).collect()),
-- 
2.43.0


From a9c6374f75de4057907fdb317edd87830c4ce57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 08/36] fix: create a custom event inside its transaction

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From 34aff045be837870df95545b3ba5682de1f380b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 09/36] fix: merging an anonymous user keeps the id sequence
 intact

---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..5085c90 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get(user_key.as_bytes())? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From d345876ce5e2f9f2218045f9687b4c4bfabff3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 10/36] fix: cache a property only once it is committed

---
 src/metadata/src/properties.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..db949b8 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -276,16 +276,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -347,10 +337,23 @@ impl Properties {
         };
     }
 
+    // remember a committed property
+    fn cache(&self, project_id: u64, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((project_id, prop.id), prop.clone());
+    }
+
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
+        self.cache(project_id, &ret);
 
         Ok(ret)
     }
@@ -365,6 +368,7 @@ impl Properties {
         let ret = self.create_(&tx, project_id, req)?;
 
         tx.commit()?;
+        self.cache(project_id, &ret);
 
         Ok(ret)
     }
@@ -498,20 +502,12 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
         tx.commit()?;
+        self.cache(project_id, &prop);
         Ok(prop)
     }
 
-- 
2.43.0


From 9d8313da1caeb907005179724bf8d55efeb714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 11/36] fix: updating an account ignored force_update_password

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..ed431c9 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -71,6 +71,7 @@ impl Accounts {
             updated_by: ctx.account_id,
             email: req.email,
             name: req.name,
+            force_update_password: req.force_update_password,
             role: req.role,
             organizations: req.organizations,
             projects: req.projects,
-- 
2.43.0


From d85bc2404fb95bd6d9e10b63ce8df701e544bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 12/36] fix: segment conditions judge every user by its own
 rows (no phantom or misaligned entries, users without a value)

---
 .../expressions/segmentation/aggregate.rs     | 31 +++++++++++++------
 .../expressions/segmentation/count.rs         | 18 ++++++-----
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
index deb0825..2a44a1d 100644
--- a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
@@ -144,6 +144,8 @@ where T: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display
     last_partition: i64,
     res: Int64Builder,
     first: bool,
+    // no value of the current partition has been accumulated yet
+    empty: bool,
 }
 
 #[derive(Debug)]
@@ -178,6 +180,7 @@ where OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Displa
             last_partition: 0,
             res: Int64Builder::with_capacity(1000),
             first: true,
+            empty: true,
         };
         Self {
             filter,
@@ -240,16 +243,9 @@ macro_rules! agg {
                         inner.first = false;
                         inner.last_partition = partition.unwrap();
                     }
-                    if !self.time_range.check_bounds(ts.value(row_id)) {
-                        continue;
-                    }
-
-                    if !check_filter(&filter, row_id) {
-                        continue;
-                    }
 
                     if inner.last_partition != partition.unwrap() {
-                        let res = Op::perform(inner.agg.result(), self.right);
+                        let res = !inner.empty && Op::perform(inner.agg.result(), self.right);
 
                         if !res {
                             inner.res.append_null();
@@ -259,8 +255,22 @@ macro_rules! agg {
                         }
 
                         inner.agg.reset();
+                        inner.empty = true;
                         inner.last_partition = partition.unwrap();
                     }
+
+                    if !self.time_range.check_bounds(ts.value(row_id)) {
+                        continue;
+                    }
+
+                    if !check_filter(&filter, row_id) {
+                        continue;
+                    }
+
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+                    inner.empty = false;
                     inner.agg.accumulate(predicate.value(row_id) as $acc_ty);
                 }
                 Ok(())
@@ -268,7 +278,10 @@ macro_rules! agg {
 
             fn finalize(&self) -> Result<Int64Array> {
                 let mut inner = self.inner.lock().unwrap();
-                let res = Op::perform(inner.agg.result(), self.right);
+                if inner.first {
+                    return Ok(inner.res.finish());
+                }
+                let res = !inner.empty && Op::perform(inner.agg.result(), self.right);
                 if !res {
                     inner.res.append_null();
                 } else {
diff --git a/src/query/src/physical_plan/expressions/segmentation/count.rs b/src/query/src/physical_plan/expressions/segmentation/count.rs
index 73079e8..3c614f3 100644
--- a/src/query/src/physical_plan/expressions/segmentation/count.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/count.rs
@@ -98,13 +98,6 @@ where Op: ComparisonOp<i64>
                 inner.first = false;
                 inner.last_partition = partition.unwrap();
             }
-            if !self.time_range.check_bounds(ts.value(row_id)) {
-                continue;
-            }
-
-            if !check_filter(&filter, row_id) {
-                continue;
-            }
 
             if inner.last_partition != partition.unwrap() {
                 let res = match Op::op() {
@@ -126,6 +119,14 @@ where Op: ComparisonOp<i64>
 
                 inner.count = 0;
             }
+
+            if !self.time_range.check_bounds(ts.value(row_id)) {
+                continue;
+            }
+
+            if !check_filter(&filter, row_id) {
+                continue;
+            }
             inner.count += 1;
         }
         Ok(())
@@ -133,6 +134,9 @@ where Op: ComparisonOp<i64>
 
     fn finalize(&self) -> Result<Int64Array> {
         let mut inner = self.inner.lock().unwrap();
+        if inner.first {
+            return Ok(inner.res.finish());
+        }
         let res = match Op::op() {
             Operator::Lt => inner.count < self.right,
             Operator::LtEq => inner.count <= self.right,
-- 
2.43.0


From f6a6840e29f88478cfd400908cd4a1f27d201b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 13/36] fix: a user outside the segment does not panic the
 segmented query

---
 src/query/src/physical_plan/segmented_aggregate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..9c45d60 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -379,9 +379,9 @@ impl Stream for PartialAggregateStream {
                                     .unwrap()
                                     .clone();
 
-                                for val in vals.iter() {
-                                    self.segment_partitions.borrow_mut()[id]
-                                        .insert(val.unwrap(), ());
+                                // null stands for a partition that is not in the segment
+                                for val in vals.iter().flatten() {
+                                    self.segment_partitions.borrow_mut()[id].insert(val, ());
                                 }
                             }
                             Poll::Ready(None) => break,
-- 
2.43.0


From f6bcae0d9a44dabf3375269183c94079a882771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 14/36] fix: per-user metrics fold exactly the qualifying rows
 of each user

---
 .../aggregate/partitioned/aggregate.rs        | 19 +++++++----
 .../aggregate/partitioned/count.rs            | 33 ++++++++++---------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..cf8acaa 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -216,10 +216,21 @@ macro_rules! agg {
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
                             self.skip = true;
+                            self.skip_partition = partition;
                             continue;
                         }
                     }
 
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
+                            continue;
+                        }
+                    }
+
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
@@ -238,12 +249,6 @@ macro_rules! agg {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.inner_fn.result();
                         // for float multiply will be 1., which will be optimized in release mode
@@ -283,7 +288,7 @@ macro_rules! agg {
                     let mut res_col_b = $b::with_capacity(1);
                     self.single_group
                         .outer_fn
-                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty);
+                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty * $mul);
                     res_col_b.append_value(self.single_group.outer_fn.result());
                     let res_col = res_col_b.finish();
                     let res_col = Arc::new(res_col) as ArrayRef;
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index 675796f..df41137 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -170,6 +170,13 @@ macro_rules! count {
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
                             self.skip = true;
+                            self.skip_partition = partition;
+                            continue;
+                        }
+                    }
+
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
                             continue;
                         }
                     }
@@ -191,12 +198,6 @@ macro_rules! count {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.count;
                         bucket.outer_fn.accumulate(v as $acc_ty);
@@ -207,7 +208,6 @@ macro_rules! count {
 
                     if self.distinct {
                         bucket.count = 1;
-                        self.skip = true;
                         // bucket.hll.add(partition)
                     } else {
                         bucket.count += 1;
@@ -365,6 +365,13 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             if let Some(exists) = partition_exist {
                 if !exists.contains_key(&partition) {
                     self.skip = true;
+                    self.skip_partition = partition;
+                    continue;
+                }
+            }
+
+            if let Some(filter) = &filter {
+                if !check_filter(filter, row_id) {
                     continue;
                 }
             }
@@ -383,12 +390,6 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
                 bucket.last_partition = partition;
             }
 
-            if let Some(filter) = &filter {
-                if !check_filter(filter, row_id) {
-                    continue;
-                }
-            }
-
             if bucket.last_partition != partition {
                 let v = bucket.count;
                 bucket
@@ -398,10 +399,10 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
 
                 bucket.count = 0;
             }
-            bucket.count += 1;
             if self.distinct {
-                self.skip = true;
-                continue;
+                bucket.count = 1;
+            } else {
+                bucket.count += 1;
             }
         }
 
-- 
2.43.0


From 54fb477aafd5735095e486d92c22985f211484df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 15/36] fix: funnel exclusions scoped to steps are applied

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs           | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..b1f4bd0 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -149,7 +149,6 @@ impl Group {
             if let Some(steps) = &excl.steps {
                 if steps.from <= self.cur_step && steps.to >= self.cur_step {
                     to_check = true;
-                    break;
                 }
             } else {
                 // check anyway
-- 
2.43.0


From 247e0e5484b9dd634716e7526241f3828f1eb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 16/36] fix: recovery pads logged rows with the columns added
 after them

---
 src/storage/src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..b2cfeda 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -268,7 +268,9 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     match op {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
-            let vv = [kv, v].concat();
+            let mut vv = [kv, v].concat();
+            // the columns added after this operation was logged
+            vv.resize(memtable.cols_len(), Value::Null);
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
             }
-- 
2.43.0


From 0f7d3f0c3666813e8456f2e4bb93cd8df6713f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 17/36] fix: recovery replays the log named by the metadata

---
 src/storage/src/db.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index b2cfeda..accb4fe 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -323,30 +321,15 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
+    // the live log is the one the metadata names: an interrupted flush may leave the previous one behind
+    // (its operations are in a part already) or stop before the new one is created
+    let log_path = path.join(log_name(md.log_id));
     // todo make a buffered read. Currently something odd happens with reading the length of the record
-    let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
+    let mut log = OpenOptions::new()
+        .read(true)
+        .write(true)
+        .create(true)
+        .open(&log_path)?;
 
     let mut memtable = Memtable::new();
 
-- 
2.43.0


From 9eb4a58ef09896c24cce61ff846f10e8516a4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 18/36] fix: recovery drops an operation cut short at the end
 of the log

---
 src/storage/src/db.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index accb4fe..d877e32 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -6,6 +6,7 @@ use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
 use std::io::Seek;
+use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -336,9 +337,10 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
+    let mut recovered_bytes = 0;
     loop {
         let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
+        let mut read_bytes = log.read(&mut crc_b)?;
         if read_bytes == 0 {
             break;
         }
@@ -346,11 +348,18 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         // !@#trace!("crc32: {}", crc32);
 
         let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
+        read_bytes += log.read(&mut len_b)?;
         let len = u64::from_le_bytes(len_b);
         // !@#trace!("len: {}", len);
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
+        read_bytes += log.read(&mut data_b)?;
+        if read_bytes < crc_b.len() + len_b.len() + data_b.len() {
+            // the last operation was cut short by a crash and never acknowledged
+            log.set_len(recovered_bytes)?;
+            log.seek(SeekFrom::Start(recovered_bytes))?;
+            break;
+        }
+        recovered_bytes += read_bytes as u64;
         // todo recover from this case
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
-- 
2.43.0


From 3bcbec7d10b152d59a02240cb052a013c3e0584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 19/36] fix: a flush overwrites the part file left by an
 interrupted one

---
 src/storage/src/db.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d877e32..9943dc6 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -469,7 +469,12 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // an interrupted flush may have left the file behind
+    let w = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .open(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
-- 
2.43.0


From 79836ba6b3896c9917d7123615bfe1af77404b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 20/36] fix: an event named by id is compared with the whole id

---
 src/query/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..3d00b8a 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -75,7 +75,7 @@ pub fn event_expression(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
-- 
2.43.0


From 46972ae488d0299d8a03d62152392dfc66ac25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 21/36] fix: a filter that rules out several values rules out
 each of them

---
 src/query/src/expr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 3d00b8a..49bc355 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -336,7 +336,11 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    match operation {
+                        // a negation must hold for every listed value
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -362,7 +366,7 @@ pub fn named_property_expression(
             })
         }
         PropValueOperation::NotLike => {
-            // expressions for OR
+            // expressions for AND
             let values_vec = values.ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
@@ -378,7 +382,7 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From f6d0c9c8985c6d961d391aa48e7a64891774f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 22/36] fix: a filter with an empty list of values is an error,
 not a panic

---
 src/query/src/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 49bc355..c42376b 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -311,7 +311,7 @@ pub fn named_property_expression(
         | PropValueOperation::Regex
         | PropValueOperation::NotRegex => {
             // expressions for OR
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
@@ -346,7 +346,7 @@ pub fn named_property_expression(
         }
         PropValueOperation::Like => {
             // expressions for OR
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
@@ -367,7 +367,7 @@ pub fn named_property_expression(
         }
         PropValueOperation::NotLike => {
             // expressions for AND
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
-- 
2.43.0


From eb5e540114e03fac5ff88fdc936c0c5bd141ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 23/36] fix: the values of a timestamp filter are converted one
 by one

---
 src/query/src/lib.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..35b6313 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -589,22 +589,8 @@ pub fn fix_filter(
             if let Some(value) = value {
                 for value in value {
                     match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
+                        (&DType::Timestamp, &ScalarValue::Decimal128(Some(ts), _, _)) => {
+                            ev.push(ScalarValue::TimestampMillisecond(Some(ts as i64), None));
                         }
                         _ => ev.push(value.to_owned()),
                     }
-- 
2.43.0


From 099fabf57ea4db6bc6212a9b6b983d7e2a7a9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 24/36] fix: a funnel reads the rows of its own project only

---
 src/query/src/funnel.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..33d0e8b 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -32,11 +32,15 @@ use common::types::ROUND_DIGITS;
 use common::types::TABLE_EVENTS;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
+use datafusion_common::ScalarValue;
 use datafusion_expr::and;
+use datafusion_expr::binary_expr;
 use datafusion_expr::col;
+use datafusion_expr::lit;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter as PlanFilter;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -257,7 +261,14 @@ pub fn build(
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
-    let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
+    let mut expr = and(
+        binary_expr(
+            col(COLUMN_PROJECT_ID),
+            Operator::Eq,
+            lit(ScalarValue::from(ctx.project_id as i64)),
+        ),
+        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
+    );
     if let Some(filters) = &req.filters {
         expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
     }
-- 
2.43.0


From fb0e179d1458b05328e47530c936ea88207844de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 25/36] fix: an event search applies the filters common to all
 events

---
 src/query/src/event_records.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..565f586 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -298,6 +298,12 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
-- 
2.43.0


From 17ff725895124e9b8ba5b145f02dcacd4a5c9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 26/36] fix: an event search keeps the events asked for without
 filters

---
 src/query/src/event_records.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 565f586..783d629 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -590,12 +590,12 @@ pub fn fix_search_request(
                         of.push(f);
                     }
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From d1b2f058ed199ca79e437b05f6a8bd45a62748d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 27/36] fix: filters of a group search no longer replace its
 time range

---
 src/query/src/group_records.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..8f180b4 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -27,7 +27,6 @@ use common::DECIMAL_PRECISION;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -266,7 +265,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
-- 
2.43.0


From e7ccd27c3193fa3bdaa4a1d0fd83094ff39ad126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 28/36] fix: the values of a property are filtered as text
 after they are decoded

---
 src/query/src/properties.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..58a248d 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -41,7 +41,7 @@ use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
 use crate::expr::event_expression;
-use crate::expr::property_expression;
+use crate::expr::named_property_expression;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::Context;
@@ -163,11 +163,9 @@ impl LogicalPlanBuilder {
 
         let input = match &req.filter {
             Some(filter) => LogicalPlan::Filter(PlanFilter::try_new(
-                property_expression(
-                    &ctx,
-                    &metadata,
-                    TABLE_EVENTS,
-                    &req.property,
+                // dictionary values are already decoded here
+                named_property_expression(
+                    col(col_name.as_str()),
                     &filter.operation,
                     filter.value.clone(),
                 )?,
-- 
2.43.0


From 7c5f31a5a13c30d266d3bf003d8fde3c9ef58519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 29/36] fix: the filters of a funnel's steps and exclusions are
 converted like its global ones

---
 src/query/src/funnel.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 33d0e8b..25d142c 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -574,9 +574,15 @@ pub fn fix_request(
     for (step_id, step) in req.steps.iter().enumerate() {
         for (event_id, event) in step.events.iter().enumerate() {
             if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                    out.steps[step_id].events[event_id].filters = None;
-                }
+                out.steps[step_id].events[event_id].filters = if filters.is_empty() {
+                    None
+                } else {
+                    let mut of = vec![];
+                    for filter in filters.iter() {
+                        of.push(fix_filter(md, project_id, filter)?);
+                    }
+                    Some(of)
+                };
             }
         }
     }
@@ -588,9 +594,15 @@ pub fn fix_request(
             let mut out_exclude = exclude.to_vec();
             for (exclude_id, exclude) in exclude.iter().enumerate() {
                 if let Some(filters) = &exclude.filters {
-                    if filters.is_empty() {
-                        out_exclude[exclude_id].filters = None;
-                    }
+                    out_exclude[exclude_id].filters = if filters.is_empty() {
+                        None
+                    } else {
+                        let mut of = vec![];
+                        for filter in filters.iter() {
+                            of.push(fix_filter(md, project_id, filter)?);
+                        }
+                        Some(of)
+                    };
                 }
             }
 
-- 
2.43.0


From 5a2006d8afc6acef9b38ac8b80998b0aa8c4d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 30/36] fix: store the time of a session begin in milliseconds

---
 src/ingester/src/destinations/local/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 920e4bd73599bb6f038bc2f683e5ea568444201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 31/36] fix: merge the anonymous user into the identified one,
 not the reverse

---
 src/ingester/src/executor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..5d05b6d 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,12 +167,12 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(user_id), Some(anonymous_id)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
-                    aid.as_str(),
-                    uid.as_str(),
+                    anonymous_id.as_str(),
+                    user_id.as_str(),
                     vec![],
                 )?;
                 (group.id, None)
-- 
2.43.0


From 9647135e3438288d8f95924da761d15df0fcaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 32/36] fix: encode profile properties in their own group's
 dictionary

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 5d05b6d..e48d429 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -307,7 +307,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From 34dd30b839604d44b3f8eb90d2ee11d0a8696076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 33/36] fix: store date properties as timestamps instead of
 refusing them

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index e48d429..4f71f2f 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..bdf8379 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -125,7 +125,9 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => {
+                Value::Timestamp(Some(v.timestamp_millis()))
+            },
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From f552e27a91f32f60b8991d9a5ace45bcab4a07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 34/36] fix: store number properties at the scale of their
 column

---
 src/ingester/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index bdf8379..57cc54f 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::types::DECIMAL_PRECISION;
+use common::types::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -91,6 +93,20 @@ pub enum PropValue {
     Bool(bool),
 }
 
+fn out_of_range(v: &Decimal) -> IngesterError {
+    IngesterError::BadRequest(format!("number {v} is out of range"))
+}
+
+// mantissa of the number at the scale of decimal columns
+fn scaled(v: &Decimal) -> Result<i128> {
+    let v = v.round_dp(DECIMAL_SCALE as u32);
+    let mul = 10i128.pow(DECIMAL_SCALE as u32 - v.scale());
+    match v.mantissa().checked_mul(mul) {
+        Some(m) if m.unsigned_abs() < 10u128.pow(DECIMAL_PRECISION as u32) => Ok(m),
+        _ => Err(out_of_range(&v)),
+    }
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -123,7 +139,7 @@ fn property_to_value(
             (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
             (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(scaled(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => {
                 Value::Timestamp(Some(v.timestamp_millis()))
-- 
2.43.0


From 9541affec6add3e3c84272913d2ef61db28a9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 35/36] fix: refuse a number that does not fit its column
 instead of panicking

---
 src/ingester/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 57cc54f..947de9e 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -135,10 +135,18 @@ fn property_to_value(
     } else {
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
+            (DType::Int8, PropValue::Number(v)) => {
+                Value::Int8(Some(v.to_i8().ok_or_else(|| out_of_range(v))?))
+            }
+            (DType::Int16, PropValue::Number(v)) => {
+                Value::Int16(Some(v.to_i16().ok_or_else(|| out_of_range(v))?))
+            }
+            (DType::Int32, PropValue::Number(v)) => {
+                Value::Int32(Some(v.to_i32().ok_or_else(|| out_of_range(v))?))
+            }
+            (DType::Int64, PropValue::Number(v)) => {
+                Value::Int64(Some(v.to_i64().ok_or_else(|| out_of_range(v))?))
+            }
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(scaled(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => {
-- 
2.43.0


From 25323670b8fbd85273f85eca1b1ec7b9075fa3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 36/36] fix: a user's funnel attempt was lost when the next
 user's first row was excluded

---
 .../aggregate/partitioned/funnel/funnel.rs    | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index b1f4bd0..75daca9 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -540,6 +540,21 @@ impl Funnel {
 
             let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
+            // the rows of another user begin: what the previous one did so far is an attempt that ended
+            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
+                group.push_result(&self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                group.cur_partition = partitions.value(row_id);
+                self.cur_partition = partitions.value(row_id);
+                group.partition_start = Row {
+                    row_id: 0,
+                    _batch_id: self.batch_id,
+                };
+                group.cur_step = 0;
+                group.skip = false;
+                group.steps_completed = 0;
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -588,21 +603,6 @@ impl Funnel {
                     }
                 }
             }
-
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
             let mut matched = false;
             match &self.steps_orders[group.cur_step] {
                 StepOrder::Exact => {
-- 
2.43.0

