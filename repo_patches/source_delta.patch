From 7f1dad4b3e45c1f5c0ea742029a5c06397a87e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 01/48] fix: retracting a value a cardinality-one attribute
 does not hold must not retract the value it does hold

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..9e6d728 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -696,7 +696,7 @@ fn insert_transaction(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
       SELECT DISTINCT e0, a0, v, ?, 0, value_type_tag0
       FROM temp.search_results
       WHERE rid IS NOT NULL AND
-            ((added0 IS 0) OR
+            ((added0 IS 0 AND v0 IS v) OR
              (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
@@ -718,7 +718,7 @@ fn update_datoms(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
         WITH ids AS (SELECT rid
                      FROM temp.search_results
                      WHERE rid IS NOT NULL AND
-                           ((added0 IS 0) OR
+                           ((added0 IS 0 AND v0 IS v) OR
                             (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v)))
         DELETE FROM datoms WHERE rowid IN ids"#;
 
@@ -1110,7 +1110,7 @@ impl MentatStoring for rusqlite::Connection {
                 SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, 0 as added
                 FROM temp.search_results
                 WHERE a0 in {} AND rid IS NOT NULL AND
-                ((added0 IS 0) OR
+                ((added0 IS 0 AND v0 IS v) OR
                     (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
 
             ) ORDER BY e, a, v, value_type_tag, added"#,
-- 
2.43.0


From ba47dc2d02a4937846b5fc6d5123c6def903bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 02/48] fix: a transaction whose datoms exactly fill the SQLite
 bind-variable limit must not panic

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 9e6d728..d9d1094 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -795,7 +795,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -937,7 +937,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1058,7 +1058,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From c396fb4bb172f9114d172ddd84d5b19065b9dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 03/48] fix: an ident moved from one entid to another in a
 transaction must stay resolvable

---
 db/src/metadata.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..094a487 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,26 +412,31 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  An ident given up by
+    // one entid may be claimed by another in the same transaction, so every ident that is given up
+    // is removed before any new ident is inserted.
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident);
+    }
+
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
     for (entid, ident) in ident_set.asserted {
         schema.entid_map.insert(entid, ident.clone());
         schema.ident_map.insert(ident.clone(), entid);
         idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
-    }
-
     // Component attributes need to change if either:
     // - a component attribute changed
     // - a schema attribute that was a component was retracted
-- 
2.43.0


From d21c32c16c79a6dcff2f1c5a60302d6a3dd7f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 04/48] fix: altering another property of an attribute must not
 drop its :db/unique

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From 5005d353bd836683390a5e71cfd83c4df2d4c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 05/48] fix: reject a schema alteration that leaves an
 attribute invalid

---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index d9d1094..dd2d502 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1298,6 +1298,10 @@ SELECT EXISTS
                 }
             }
         }
+
+        // An alteration must leave behind an attribute that could have been installed: the schema is
+        // validated, as a whole, when the store is next opened.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From e98229790233dc532c6d4b74aa82d7f83c3519f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 06/48] fix: transaction watchers must see the changes made,
 not those requested

Caches and observers were fed the requested assertions and retractions.
A redundant assertion was cached twice, a replaced cardinality-one value
stayed in reverse caches, and retracting an absent value evicted the
present one.
---
 db/src/db.rs | 36 ++++++++++++++++++++++++++++++++++++
 db/src/tx.rs | 13 +++++++++----
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index dd2d502..5896e25 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -637,6 +637,11 @@ pub trait MentatStoring {
     /// Extract metadata-related [e a typed_value added] datoms resolved in the last
     /// materialized transaction.
     fn resolved_metadata_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
+
+    /// Extract all [e a typed_value added] datoms resolved in the last materialized transaction:
+    /// the changes made to the store, as distinct from the assertions and retractions that were
+    /// requested.
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
 }
 
 /// Take search rows and complete `temp.search_results`.
@@ -1124,6 +1129,37 @@ impl MentatStoring for rusqlite::Connection {
             .collect();
         m
     }
+
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>> {
+        // Fulltext values are represented by their `rowid` in `fulltext_values`.
+        let sql_stmt = format!(
+            r#"
+            SELECT e, a,
+                   CASE WHEN flags & {} THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END,
+                   value_type_tag, added FROM
+            (
+                SELECT e0 as e, a0 as a, v0 as v, value_type_tag0 as value_type_tag, flags0 AS flags, 1 as added
+                FROM temp.search_results
+                WHERE added0 IS 1 AND ((rid IS NULL) OR ((rid IS NOT NULL) AND (v0 IS NOT v)))
+
+                UNION
+
+                SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, flags0 AS flags, 0 as added
+                FROM temp.search_results
+                WHERE rid IS NOT NULL AND
+                ((added0 IS 0 AND v0 IS v) OR
+                    (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
+
+            ) ORDER BY a, e, added, value_type_tag, v"#,
+            AttributeBitFlags::IndexFulltext as u8
+        );
+
+        let mut stmt = self.prepare_cached(&sql_stmt)?;
+        let m: Result<Vec<_>> = stmt
+            .query_and_then(rusqlite::params![], row_to_transaction_assertion)?
+            .collect();
+        m
+    }
 }
 
 /// Extract metadata-related [e a typed_value added] datoms committed in the given transaction.
diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..ebfb900 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -891,8 +891,6 @@ where
                         .map(|v| (true, v))
                         .chain(ars.retract.into_iter().map(|v| (false, v)))
                     {
-                        let op = if added { OpType::Add } else { OpType::Retract };
-                        self.watcher.datom(op, e, a, &v);
                         queue.push((e, a, attribute, v, added));
                     }
                 }
@@ -929,8 +927,6 @@ where
             }
         }
 
-        self.watcher.done(&self.tx_id, self.schema)?;
-
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
             let metadata_assertions = match action {
@@ -961,6 +957,15 @@ where
             }
         }
 
+        // Watchers see the changes that were made to the store, not those that were requested: a
+        // request might be redundant, or might implicitly retract an existing value.  Only tell
+        // them once nothing else can fail.
+        for (e, a, v, added) in self.store.resolved_assertions()? {
+            let op = if added { OpType::Add } else { OpType::Retract };
+            self.watcher.datom(op, e, a, &v);
+        }
+        self.watcher.done(&self.tx_id, self.schema)?;
+
         Ok(TxReport {
             tx_id: self.tx_id,
             tx_instant,
-- 
2.43.0


From ff774803679a92d1fdac70171e67db0367b97a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 07/48] fix: a rejected transact must leave no trace in a
 transaction that is later committed

---
 transaction/src/lib.rs | 45 ++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..155cdf2 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -143,6 +143,22 @@ pub trait Pullable {
         A: IntoIterator<Item = Entid>;
 }
 
+/// Apply `f`, undoing any changes it made to the store if it fails.  The caller might go on to commit
+/// an `InProgress` after one of its transacts is rejected.
+fn all_or_nothing<T, E, F>(conn: &rusqlite::Connection, f: F) -> Result<T>
+where
+    F: FnOnce(&rusqlite::Connection) -> ::std::result::Result<T, E>,
+    MentatError: From<E>,
+{
+    conn.execute_batch("SAVEPOINT mentat_transact")?;
+    let result = f(conn);
+    if result.is_err() {
+        conn.execute_batch("ROLLBACK TO mentat_transact")?;
+    }
+    conn.execute_batch("RELEASE mentat_transact")?;
+    result.map_err(|e| e.into())
+}
+
 impl<'a, 'c> InProgress<'a, 'c> {
     pub fn builder(self) -> InProgressBuilder<'a, 'c> {
         InProgressBuilder::new(self)
@@ -169,15 +185,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
             &mut self.tx_observer_watcher,
             self.cache.transact_watcher(),
         );
-        let (report, next_partition_map, next_schema, _watcher) = transact_terms(
-            &self.transaction,
-            self.partition_map.clone(),
-            &self.schema,
-            &self.schema,
-            w,
-            terms,
-            tempid_set,
-        )?;
+        let partition_map = self.partition_map.clone();
+        let schema = &self.schema;
+        let (report, next_partition_map, next_schema, _watcher) =
+            all_or_nothing(&self.transaction, |conn| {
+                transact_terms(conn, partition_map, schema, schema, w, terms, tempid_set)
+            })?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
@@ -201,14 +214,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
             &mut self.tx_observer_watcher,
             self.cache.transact_watcher(),
         );
-        let (report, next_partition_map, next_schema, _watcher) = transact(
-            &self.transaction,
-            self.partition_map.clone(),
-            &self.schema,
-            &self.schema,
-            w,
-            entities,
-        )?;
+        let partition_map = self.partition_map.clone();
+        let schema = &self.schema;
+        let (report, next_partition_map, next_schema, _watcher) =
+            all_or_nothing(&self.transaction, |conn| {
+                transact(conn, partition_map, schema, schema, w, entities)
+            })?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
-- 
2.43.0


From b3cc9925886a5fb77f3e438b484f175c12049473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 08/48] fix: a committed transaction must reach its observers
 even if registrations change meanwhile

---
 db/src/tx_observer.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..e09145c 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,7 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +76,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 494408369fdb05cca0c7a4abedf04562310a498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 09/48] fix: lookup_value and lookup_values must agree with an
 uncached lookup whatever the cardinality

---
 transaction/src/query.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..961d6c7 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -217,6 +217,11 @@ where
     if known.is_attribute_cached_forward(attrid) {
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|vs| vs.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -243,7 +248,13 @@ where
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
-            .unwrap_or_else(Vec::new))
+            .unwrap_or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .cloned()
+                    .into_iter()
+                    .collect()
+            }))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
             .into_coll_result()
-- 
2.43.0


From bbaea86a6b75ab01f1f94c83f8333b9074effd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 10/48] fix: a value retracted in progress must not be looked
 up in the underlying cache

---
 db/src/cache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..3d8cfa0 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1024,14 +1024,10 @@ impl AttributeCaches {
         attribute: Entid,
         entid: Entid,
     ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
+        // A deleted value is present: as `None`.
+        self.value_pairs(schema, attribute)
             .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
+            .map(|v| v.as_ref())
     }
 }
 
-- 
2.43.0


From e10650e168ee1e81470d917be96637390db98e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 11/48] fix: registering, deregistering and committing caches
 must not leave or lose cached values

An attribute registered again in a transaction fell through to, and was
merged with, what was cached before; an attribute with no values kept the
values it had; and committing while somebody held the current cache
panicked.
---
 db/src/cache.rs | 139 +++++++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 78 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 3d8cfa0..3c4de75 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -437,10 +437,6 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -995,6 +991,10 @@ impl AttributeCaches {
         let a = attribute.into();
         self.reverse_cached_attributes.remove(&a);
         self.forward_cached_attributes.remove(&a);
+        self.remove_values(a);
+    }
+
+    fn remove_values(&mut self, a: Entid) {
         self.single_vals.remove(&a);
         self.multi_vals.remove(&a);
         self.unique_reverse.remove(&a);
@@ -1002,35 +1002,6 @@ impl AttributeCaches {
     }
 }
 
-// We need this block for fall-back.
-impl AttributeCaches {
-    fn get_entid_for_value_if_present(
-        &self,
-        attribute: Entid,
-        value: &TypedValue,
-    ) -> Option<Option<Entid>> {
-        if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
-        } else {
-            None
-        }
-    }
-
-    fn get_value_for_entid_if_present(
-        &self,
-        schema: &Schema,
-        attribute: Entid,
-        entid: Entid,
-    ) -> Option<Option<&TypedValue>> {
-        // A deleted value is present: as `None`.
-        self.value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-            .map(|v| v.as_ref())
-    }
-}
-
 /// SQL stuff.
 impl AttributeCaches {
     fn repopulate(
@@ -1055,6 +1026,31 @@ impl AttributeCaches {
         let mut stmt = sqlite
             .prepare(&sql)
             .context(DbErrorKind::CacheUpdateFailed)?;
+
+        // There might be no rows at all; forget what we have, and note that we know of no values.
+        let (multi, unique) = schema
+            .attribute_for_entid(attribute)
+            .map_or((false, false), |s| (s.multival, s.unique.is_some()));
+        self.remove_values(attribute);
+        match (self.is_attribute_cached_forward(attribute), multi) {
+            (true, true) => {
+                self.fmc(attribute, None);
+            }
+            (true, false) => {
+                self.fsc(attribute, None);
+            }
+            _ => {}
+        }
+        match (self.is_attribute_cached_reverse(attribute), unique) {
+            (true, true) => {
+                self.ruc(attribute, None);
+            }
+            (true, false) => {
+                self.rnuc(attribute, None);
+            }
+            _ => {}
+        }
+
         let replacing = true;
         self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
     }
@@ -1613,6 +1609,8 @@ pub struct InProgressSQLiteAttributeCache {
     pub overlay: AttributeCaches,
     unregistered_forward: BTreeSet<Entid>,
     unregistered_reverse: BTreeSet<Entid>,
+    /// Every attribute that was unregistered, including those that were registered again.
+    unregistered: BTreeSet<Entid>,
 }
 
 impl InProgressSQLiteAttributeCache {
@@ -1623,6 +1621,7 @@ impl InProgressSQLiteAttributeCache {
             overlay,
             unregistered_forward: Default::default(),
             unregistered_reverse: Default::default(),
+            unregistered: Default::default(),
         }
     }
 
@@ -1720,10 +1719,15 @@ impl InProgressSQLiteAttributeCache {
         self.overlay.unregister_attribute(a);
         self.unregistered_forward.insert(a);
         self.unregistered_reverse.insert(a);
+        self.unregistered.insert(a);
     }
 
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
+        self.unregistered
+            .extend(self.inner.forward_cached_attributes.iter().cloned());
+        self.unregistered
+            .extend(self.inner.reverse_cached_attributes.iter().cloned());
         self.unregistered_forward
             .extend(self.inner.forward_cached_attributes.iter().cloned());
         self.unregistered_reverse
@@ -1751,12 +1755,11 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
-                .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
+            // If we have values for this attribute in `overlay`, we have all of them.
+            match self.overlay.values_pairs(schema, attribute) {
+                Some(values) => values.get(&entid),
+                None => self.inner.get_values_for_entid(schema, attribute, entid),
+            }
         }
     }
 
@@ -1769,14 +1772,9 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_value_for_entid_if_present(schema, attribute, entid)
-            {
-                Some(present) => present,
+            // If we have values for this attribute in `overlay`, we have all of them.
+            match self.overlay.value_pairs(schema, attribute) {
+                Some(values) => values.get(&entid).and_then(|v| v.as_ref()),
                 None => self.inner.get_value_for_entid(schema, attribute, entid),
             }
         }
@@ -1829,9 +1827,11 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
-                .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
+            // If we have entids for this attribute in `overlay`, we have all of them.
+            match self.overlay.non_unique_reverse.get(&attribute) {
+                Some(entids) => entids.get_es(value),
+                None => self.inner.get_entids_for_value(attribute, value),
+            }
         }
     }
 
@@ -1839,14 +1839,9 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_entid_for_value_if_present(attribute, value)
-            {
-                Some(present) => present,
+            // If we have entids for this attribute in `overlay`, we have all of them.
+            match self.overlay.unique_reverse.get(&attribute) {
+                Some(entids) => entids.get_e(value),
                 None => self.inner.get_entid_for_value(attribute, value),
             }
         }
@@ -1891,30 +1886,18 @@ impl InProgressSQLiteAttributeCache {
             return;
         }
 
-        // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // Drop our copy of the `Arc` so that we will ordinarily update the destination cache in
+        // place.  If somebody else still holds a reference, they keep what they have.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = Arc::make_mut(&mut destination.inner);
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Anything that was ever unregistered starts afresh, even if it was registered again.
+        for unregistered in &self.unregistered {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
-- 
2.43.0


From b1b81ac28b396079e0373fb404457f2aa8b2db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 12/48] fix: altering a cached attribute must rebuild its cache

---
 db/src/cache.rs        | 35 +++++++++++++++++++++++++++++++++++
 transaction/src/lib.rs |  4 ++++
 2 files changed, 39 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 3c4de75..76c7b96 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1711,6 +1711,41 @@ impl InProgressSQLiteAttributeCache {
         self.overlay.repopulate(schema, sqlite, a)
     }
 
+    /// The shape of a cache depends on the definition of its attribute: start afresh with each cached
+    /// attribute that has been altered, and forget each that no longer exists.
+    pub fn schema_changed(
+        &mut self,
+        old: &Schema,
+        new: &Schema,
+        sqlite: &rusqlite::Connection,
+    ) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .inner
+            .forward_cached_attributes
+            .iter()
+            .chain(self.inner.reverse_cached_attributes.iter())
+            .chain(self.overlay.forward_cached_attributes.iter())
+            .chain(self.overlay.reverse_cached_attributes.iter())
+            .cloned()
+            .collect();
+        for a in cached {
+            let attribute = new.attribute_for_entid(a);
+            if attribute == old.attribute_for_entid(a) {
+                continue;
+            }
+            let forward = self.is_attribute_cached_forward(a);
+            let reverse = self.is_attribute_cached_reverse(a);
+            self.unregister(a);
+            if attribute.is_some() && forward {
+                self.register_forward(new, sqlite, a)?;
+            }
+            if attribute.is_some() && reverse {
+                self.register_reverse(new, sqlite, a)?;
+            }
+        }
+        Ok(())
+    }
+
     pub fn unregister<U>(&mut self, attribute: U)
     where
         U: Into<Entid>,
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 155cdf2..2627fcb 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -193,6 +193,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
             })?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
@@ -222,6 +224,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
             })?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
-- 
2.43.0


From 30bc8d483ed9d229f0b0626c861f512c4697d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 13/48] fix: queries must not trust a cache that does not hold
 the answer

A pattern with a keyword value looked in a reverse cache that might not
exist, and a pattern for the values of a cached cardinality-many attribute
found none.
---
 query-algebrizer/src/clauses/pattern.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..e14a4f8 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -371,6 +371,9 @@ impl ConjoiningClauses {
                                             return false;
                                         }
                                         ValueType::Keyword => {
+                                            if !cached_reverse {
+                                                return false;
+                                            }
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
                                             return self.reverse_lookup(known, var, attr, &tv);
                                         }
@@ -397,7 +400,8 @@ impl ConjoiningClauses {
                         EvolvedNonValuePlace::Entid(entity) => {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
-                                    if cached_forward {
+                                    // TODO: handle multiple values.
+                                    if cached_forward && !attribute.multival {
                                         match known.get_value_for_entid(known.schema, attr, entity)
                                         {
                                             None => {
-- 
2.43.0


From 9dd536b73083572b49504b62567439c8b0e45aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 14/48] fix: an upserting tempid's other unique assertions must
 not be dropped

With :id and :id2 both :db.unique/identity and [E :id 1] in the store,
{:id 1 :id2 2} reported success but did not store [E :id2 2].
---
 db/src/tx.rs                | 2 ++
 db/src/upsert_resolution.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index ebfb900..acec64b 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1115,6 +1115,8 @@ pub(crate) fn into_aev_trie<'schema>(
     inert_terms: Vec<TermWithTempIds>,
 ) -> Result<AEVTrie<'schema>> {
     let mut trie = AEVTrie::default();
+    // A tempid that upserted might have other unique [a v] pairs that are not yet in the store.
+    extend_aev_trie(schema, final_populations.upserted, &mut trie)?;
     extend_aev_trie(schema, final_populations.resolved, &mut trie)?;
     extend_aev_trie(schema, final_populations.allocated, &mut trie)?;
     // Inert terms need to be unwrapped.  It is a coding error if a term can't be unwrapped.
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..3825f40 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -60,8 +60,8 @@ pub(crate) struct Generation {
     /// - [:db/add e b OTHERID].
     allocations: Vec<TermWithTempIds>,
 
-    /// Entities that upserted and no longer reference tempids.  These assertions are guaranteed to
-    /// be in the store.
+    /// Entities that upserted and no longer reference tempids.  At least one of the assertions for
+    /// each such tempid is in the store; the others may or may not be.
     upserted: Vec<TermWithoutTempIds>,
 
     /// Entities that resolved due to other upserts and no longer reference tempids.  These
-- 
2.43.0


From 791e9d5e8655accb46b52965435f78b35e3da7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 15/48] fix: a tempid that upserted must stay upserted in later
 generations

With [A :id 1] and [B :id 2] in the store, transacting [a :id 1] [b :id 2]
[a :unique-ref b] panicked unless [A :unique-ref B] was already there.
---
 db/src/tx.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index acec64b..ed4a5f4 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -735,6 +735,9 @@ where
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
 
+        // Every tempid that has upserted, in any generation.
+        let mut upserted_temp_ids: TempIdMap = TempIdMap::default();
+
         // And evolve them forward.
         while generation.can_evolve() {
             debug!("generation {:?}", generation);
@@ -747,7 +750,10 @@ where
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
+            // A tempid that upserted in an earlier generation stays upserted, even if its complex
+            // upserts don't resolve in this one.  (Conflicts are detected below.)
+            upserted_temp_ids.extend(temp_id_map.iter().map(|(t, e)| (t.clone(), *e)));
+            generation = generation.evolve_one_step(&upserted_temp_ids);
 
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
-- 
2.43.0


From 929ada4ee4876a95eb4a01d00529d427eacf226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 16/48] fix: retracting in :attr/_reversed notation must
 retract

---
 db/src/tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index ed4a5f4..fd9579c 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -469,7 +469,7 @@ where
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
                         terms.push(Term::AddOrRetract(
-                            OpType::Add,
+                            op,
                             reversed_e,
                             reversed_a,
                             reversed_v,
-- 
2.43.0


From 947dedc1ba1d7a045d7746fbdb3ea6d99ba32208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 17/48] fix: instants before 1970 with a fractional second must
 be read back as they were written

---
 edn/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..311b316 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -653,7 +653,10 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -675,7 +678,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From 9c75c5e13b1b971601e6719abff755b6add686f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 18/48] fix: an entity named in :attr/_reversed notation must
 have been allocated

---
 db/src/tx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index fd9579c..7b3920e 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -391,7 +391,7 @@ where
                                     Some(tempid) => Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
                                     None => {
                                         if let TypedValue::Ref(entid) = v.into_typed_value(&self.schema, ValueType::Ref)? {
-                                            Ok(Either::Left(KnownEntid(entid)))
+                                            Ok(Either::Left(self.ensure_entid_exists(entid)?))
                                         } else {
                                             // The given value is expected to be :db.type/ref, so this shouldn't happen.
                                             bail!(DbErrorKind::NotYetImplemented(format!("Cannot use :attr/_reversed notation for attribute {} with value that is not :db.valueType :db.type/ref", forward_a)))
@@ -400,8 +400,10 @@ where
                                 }
                             },
 
-                            entmod::ValuePlace::Entid(entid) =>
-                                Ok(Either::Left(KnownEntid(self.entity_a_into_term_a(entid)?))),
+                            entmod::ValuePlace::Entid(entid) => {
+                                let entid = self.entity_a_into_term_a(entid)?;
+                                Ok(Either::Left(self.ensure_entid_exists(entid)?))
+                            },
 
                             entmod::ValuePlace::TempId(tempid) =>
                                 Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
-- 
2.43.0


From b30bd59b03c26c78596f79f2cf7c58fc12b3a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 19/48] fix: rolling back to a savepoint must restore what the
 transaction holds in memory

---
 db/src/cache.rs        |  2 +-
 db/src/tx_observer.rs  |  2 +-
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++++++---
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 76c7b96..d3fc5cf 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1603,7 +1603,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index e09145c..bdccb6f 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -155,7 +155,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..0067f2c 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -258,6 +258,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: Vec::new(),
         })
     }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 2627fcb..667e5e5 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -95,6 +95,16 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    pub savepoints: Vec<Savepoint>,
+}
+
+/// What an `InProgress` held in memory when a savepoint was established.
+pub struct Savepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -331,21 +341,48 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+        self.savepoints.push(Savepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
+    /// The position of the most recent savepoint with this name. Like SQLite, we ignore case.
+    fn savepoint_position(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|s| s.name.eq_ignore_ascii_case(name))
+    }
+
+    /// Undo everything done since the savepoint was established, in the store and in memory. The
+    /// savepoint itself remains.
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+        if let Some(i) = self.savepoint_position(name) {
+            self.savepoints.truncate(i + 1);
+            let savepoint = &self.savepoints[i];
+            self.partition_map = savepoint.partition_map.clone();
+            self.schema = savepoint.schema.clone();
+            self.cache = savepoint.cache.clone();
+            self.tx_observer_watcher = savepoint.tx_observer_watcher.clone();
+        }
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+        if let Some(i) = self.savepoint_position(name) {
+            self.savepoints.truncate(i);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From b506eb8a894294379a657d7856f32f2824118253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 20/48] fix: altering an attribute to :db.cardinality/one must
 succeed when no entity has two values

---
 db/src/db.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 5896e25..973efc0 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1268,13 +1268,13 @@ pub fn update_metadata(
     let mut unique_value_stmt = conn.prepare("UPDATE datoms SET unique_value = ? WHERE a = ?")?;
     let mut cardinality_stmt = conn.prepare(
         r#"
-SELECT EXISTS
-    (SELECT 1
-        FROM datoms AS left, datoms AS right
-        WHERE left.a = ? AND
-        left.a = right.a AND
-        left.e = right.e AND
-        left.v <> right.v)"#,
+SELECT 1
+    FROM datoms AS left, datoms AS right
+    WHERE left.a = ? AND
+    left.a = right.a AND
+    left.e = right.e AND
+    left.v <> right.v
+    LIMIT 1"#,
     )?;
 
     for (&entid, alterations) in &metadata_report.attributes_altered {
-- 
2.43.0


From 62b2f8ab8bf6a43c2dd27ceea7eb0a8ce1468b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 21/48] fix: terms that upserted in an earlier generation must
 not be dropped

---
 db/src/upsert_resolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index 3825f40..5ce483f 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -146,7 +146,8 @@ impl Generation {
         let mut next = Generation::default();
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
-        // resolved stay resolved.
+        // upserted or resolved stay so.
+        next.upserted = self.upserted;
         next.resolved = self.resolved;
 
         for UpsertE(t, a, v) in self.upserts_e {
-- 
2.43.0


From ea67c3a5307c86e040d736c6583a12ab6691f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 22/48] fix: a query that cannot match anything returns nothing
 instead of an unbound-variable error

---
 query-algebrizer/src/clauses/mod.rs | 6 ++++++
 query-algebrizer/src/lib.rs         | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..d9b1a7d 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1177,6 +1177,12 @@ impl ConjoiningClauses {
                         self.apply_evolved_patterns(known, patterns)?;
                         patterns = VecDeque::with_capacity(remaining);
                     }
+
+                    // A pattern that can't match leaves its variables unbound, so don't go on
+                    // to look for them: nothing can match any more.
+                    if self.is_known_empty() {
+                        return Ok(());
+                    }
                     self.apply_clause(known, clause)?;
                 }
             }
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..867ffe4 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -217,6 +217,9 @@ fn validate_and_simplify_order(
 ) -> Result<(Option<Vec<OrderBy>>, BTreeSet<Variable>)> {
     match order {
         None => Ok((None, BTreeSet::default())),
+
+        // There's nothing to order, and the variables might not have been bound.
+        Some(_) if cc.is_known_empty() => Ok((None, BTreeSet::default())),
         Some(order) => {
             let mut order_bys: Vec<OrderBy> = Vec::with_capacity(order.len() * 2); // Space for tags.
             let mut vars: BTreeSet<Variable> = BTreeSet::default();
-- 
2.43.0


From d8d5780b389d23c51cb4beed342857ad67d9a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 23/48] fix: project a variable whose type differs between the
 arms of an or

---
 query-algebrizer/src/clauses/or.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..e64d972 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -433,6 +433,13 @@ impl ConjoiningClauses {
             // we know that we can blindly merge: collisions aren't possible.
             if let Some(first) = receptacles.peek() {
                 for (v, cols) in &first.column_bindings {
+                    // The arms might not agree about the type of a value, so note where to find it.
+                    // If the type turns out to be known we'll discard this, just as for a pattern.
+                    if !self.input_variables.contains(v) {
+                        if let Some(tag) = cols[0].for_associated_type_tag() {
+                            self.extracted_types.entry(v.clone()).or_insert(tag);
+                        }
+                    }
                     match self.column_bindings.entry(v.clone()) {
                         Entry::Vacant(e) => {
                             e.insert(cols.clone());
@@ -639,10 +646,15 @@ impl ConjoiningClauses {
         let projection: BTreeSet<Variable> = projected.into_iter().collect();
         let mut type_needed: BTreeSet<Variable> = BTreeSet::default();
 
-        // For any variable which has an imprecise type anywhere in the UNION, add it to the
-        // set that needs type extraction. All UNION arms must project the same columns.
+        // For any variable which has an imprecise type anywhere in the UNION, or whose type isn't
+        // the same throughout the UNION, add it to the set that needs type extraction. All UNION
+        // arms must project the same columns.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let first = acc[0].known_type(var);
+            if acc.iter().any(|cc| {
+                let known = cc.known_type(var);
+                known.is_none() || known != first
+            }) {
                 type_needed.insert(var.clone());
             }
         }
-- 
2.43.0


From 5989bab4be09e0d259a6252139a8a069d8461873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 24/48] fix: an aggregate over nothing is not an error

---
 query-projector-traits/aggregates.rs |  4 ++--
 query-projector/src/translate.rs     | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..6bdc789 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -162,8 +162,8 @@ impl SimpleAggregate {
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 5c740d0..f02f26a 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -413,6 +413,12 @@ fn re_project(mut inner: SelectQuery, projection: Projection) -> SelectQuery {
 
     use self::Projection::*;
 
+    let has_nullable = match projection {
+        Columns(ref columns) => columns
+            .iter()
+            .any(|pc| matches!(pc.0, ColumnOrExpression::NullableAggregate(_, _))),
+        Star | One => false,
+    };
     let nullable = match projection {
         Columns(ref columns) => columns
             .iter()
@@ -422,6 +428,15 @@ fn re_project(mut inner: SelectQuery, projection: Projection) -> SelectQuery {
                         value: ColumnOrExpression::ExistingColumn(name.clone()),
                     })
                 }
+                // If we're not grouping by this column then it's either fixed or `(the ?x)`, and
+                // it's `NULL` if there was nothing to aggregate.
+                ProjectedColumn(ColumnOrExpression::ExistingColumn(_), ref name)
+                    if group_by.is_empty() && !has_nullable =>
+                {
+                    Some(Constraint::IsNotNull {
+                        value: ColumnOrExpression::ExistingColumn(name.clone()),
+                    })
+                }
                 _ => None,
             })
             .collect(),
-- 
2.43.0


From 3a2b27b6b8e1f3e9fa9a4885449836c392ec860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 25/48] fix: a negative number whose type is not yet known is
 an integer, not a mismatch

---
 query-algebrizer/src/clauses/convert.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..c5c8e90 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -142,7 +142,11 @@ impl ConjoiningClauses {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, true) => {
+                        // This isn't a valid ref, so it can only be a long.
+                        Ok(Val(TypedValue::Long(x)))
+                    }
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 30501a46666d864cf8e5d06361614ba5306ebace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 26/48] fix: an arm of an or that cannot have the required type
 must not be part of the union

---
 query-algebrizer/src/clauses/or.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index e64d972..d606a12 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -590,7 +590,11 @@ impl ConjoiningClauses {
                 receptacle.expand_column_bindings();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
-                acc.push(receptacle);
+                if receptacle.is_known_empty() {
+                    empty_because = receptacle.empty_because;
+                } else {
+                    acc.push(receptacle);
+                }
             }
         }
 
-- 
2.43.0


From 0a53aff83bb7d9526b1db937965124f35ca81df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 27/48] fix: a not whose clauses the cache or bound values
 satisfy must exclude everything

---
 query-algebrizer/src/clauses/not.rs | 9 +++++----
 query-algebrizer/src/types.rs       | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..a08b12e 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -14,7 +14,7 @@ use crate::clauses::ConjoiningClauses;
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
-use crate::types::{ColumnConstraint, ComputedTable};
+use crate::types::{ColumnConstraint, ComputedTable, EmptyBecause};
 
 use crate::Known;
 
@@ -60,9 +60,10 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
-        // If we don't impose any constraints on the output, we might as well
-        // not exist.
-        if template.wheres.is_empty() {
+        // If there's nothing left to look for -- everything was decided by bound values or by the
+        // cache -- then the negated clauses always hold, and so nothing can match.
+        if template.wheres.is_empty() && template.from.is_empty() {
+            self.mark_known_empty(EmptyBecause::NegatedClausesAlwaysHold);
             return Ok(());
         }
 
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..7098c96 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -618,6 +618,7 @@ pub enum EmptyBecause {
     InvalidAttributeEntid(Entid),
     InvalidBinding(Column, TypedValue),
     ValueTypeMismatch(ValueType, TypedValue),
+    NegatedClausesAlwaysHold,
     AttributeLookupFailed, // Catch-all, because the table lookup code is lazy. TODO
 }
 
@@ -677,6 +678,7 @@ impl Debug for EmptyBecause {
                 "Type mismatch: {:?} doesn't match attribute type {:?}",
                 typed_value, value_type
             ),
+            NegatedClausesAlwaysHold => write!(f, "Negated clauses always hold"),
             AttributeLookupFailed => write!(f, "Attribute lookup failed"),
         }
     }
-- 
2.43.0


From 1ce462b5dfe9352f3dded6119f871f5d991eae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 28/48] fix: an SQL error while reading results is an error,
 not a panic

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
-- 
2.43.0


From 01bb1acfca53db8df91a82ff1e64ea5f495e8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 29/48] fix: aggregate a variable whose value is known instead
 of returning it once per row

---
 query-projector-traits/aggregates.rs | 32 +++++++++-------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index 6bdc789..3649e75 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,14 +150,6 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
@@ -195,21 +187,17 @@ pub fn projected_column_for_simple_aggregate(
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // Oh, we already know the value! We must aggregate all the same: if there's a `:with` then
+        // there can be several rows in each group, there might not be any at all, and an average
+        // is a double whatever it's given.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
-- 
2.43.0


From 64fc6c3c80e25fbbcf5f85e725e080a3273d5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 30/48] fix: variables that are all bound do not make a query
 match

---
 query-algebrizer/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 867ffe4..8f00afb 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,10 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        self.cc.wheres.is_empty()
+            && self.cc.from.is_empty()
+            && !self.is_known_empty()
+            && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
-- 
2.43.0


From b25c34a2eeea9d9825da48ef202b2ecb9f0627dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 31/48] fix: a chunk of full-text assertions may repeat strings
 of earlier chunks only

---
 db/src/db.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 973efc0..a2611af 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1041,13 +1041,16 @@ impl MentatStoring for rusqlite::Connection {
                              .chain(once(searchid as &dyn ToSql))
                      }).collect();
 
-            // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // Every string of this chunk might have been inserted with an earlier chunk.
+            if string_count > 0 {
+                // TODO: make this maximally efficient. It's not terribly inefficient right now.
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From efd6b7cc25749a7038a1f9089df6dc692a9a4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 32/48] fix: moving transactions must leave earlier ones with
 the same ids on their timelines

---
 db/src/timelines.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..6dec832 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -75,17 +75,12 @@ fn move_transactions_to(
     new_timeline: Entid,
 ) -> Result<()> {
     // Move specified transactions over to a specified timeline.
-    conn.execute(
-        &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE tx IN {}",
-            new_timeline,
-            crate::repeat_values(tx_ids.len(), 1)
-        ),
-        &(tx_ids
-            .iter()
-            .map(|x| x as &dyn rusqlite::types::ToSql)
-            .collect::<Vec<_>>()),
-    )?;
+    // A transaction moved earlier might have had the same ID, so only consider the main timeline.
+    let mut stmt = conn
+        .prepare("UPDATE timelined_transactions SET timeline = ? WHERE tx = ? AND timeline = ?")?;
+    for tx_id in tx_ids {
+        stmt.execute(&[&new_timeline, tx_id, &crate::TIMELINE_MAIN])?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From ed8b47ab6a00a5a63b3e0fd998a6dac6d136ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 33/48] fix: a rewind must start from the schema the one before
 it left

---
 db/src/timelines.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 6dec832..eb6f7bd 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -151,7 +151,7 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
+    let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
 
@@ -159,8 +159,8 @@ pub fn move_from_main_timeline(
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            last_schema.as_ref().unwrap_or(schema),
+            last_schema.as_ref().unwrap_or(schema),
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -177,7 +177,10 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        // Not every transaction changes the schema.
+        if new_schema.is_some() {
+            last_schema = new_schema;
+        }
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From 25059b38b58a8a5f70fbf5cd7591ee2a3f978e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 34/48] fix: rewind full-text values as strings

---
 db/src/timelines.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index eb6f7bd..5837474 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -14,9 +14,9 @@ use rusqlite;
 
 use db_traits::errors::{DbErrorKind, Result};
 
-use core_traits::{Entid, KnownEntid, TypedValue};
+use core_traits::{Entid, KnownEntid, TypedValue, ValueType};
 
-use mentat_core::Schema;
+use mentat_core::{SQLValueType, Schema};
 
 use edn::InternSet;
 
@@ -102,7 +102,9 @@ fn reversed_terms_for(
     conn: &rusqlite::Connection,
     tx_id: Entid,
 ) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
+    // A fulltext value is represented by its `rowid` in `fulltext_values`.
+    let string_tag = ValueType::String.value_type_tag();
+    let mut stmt = conn.prepare(&format!("SELECT e, a, CASE WHEN value_type_tag = {} AND typeof(v) = 'integer' THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC", string_tag))?;
     let rows = stmt.query_and_then(
         &[&tx_id, &crate::TIMELINE_MAIN],
         |row| -> Result<TermWithoutTempIds> {
-- 
2.43.0


From 08c136d337bdbf3dd3b210a226c32d3ee0a6e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 35/48] fix: facts restored by a rewind keep the transactions
 that asserted them

---
 db/src/timelines.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 5837474..0b98677 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -84,6 +84,20 @@ fn move_transactions_to(
     Ok(())
 }
 
+/// Rewinding a transaction re-asserts the datoms it retracted, in `rewind_tx`. Restore the
+/// transactions which asserted them on the main timeline.
+fn restore_datoms_txs(conn: &rusqlite::Connection, rewind_tx: Entid) -> Result<()> {
+    conn.execute(
+        "UPDATE datoms SET tx =
+            (SELECT MAX(t.tx) FROM timelined_transactions t
+             WHERE t.timeline = ?1 AND t.added IS NOT 0 AND t.e = datoms.e AND t.a = datoms.a AND
+                   t.value_type_tag = datoms.value_type_tag AND t.v = datoms.v)
+         WHERE tx = ?2",
+        &[&crate::TIMELINE_MAIN, &rewind_tx],
+    )?;
+    Ok(())
+}
+
 fn remove_tx_from_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()> {
     conn.execute("DELETE FROM datoms WHERE e = ?", &[&tx_id])?;
     Ok(())
@@ -154,6 +168,7 @@ pub fn move_from_main_timeline(
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
     let mut last_schema: Option<Schema> = None;
+    let mut rewind_tx = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
 
@@ -183,11 +198,16 @@ pub fn move_from_main_timeline(
         if new_schema.is_some() {
             last_schema = new_schema;
         }
+        rewind_tx = Some(report.tx_id);
     }
 
     // Move transactions over to the target timeline.
     move_transactions_to(conn, &txs_to_move, new_timeline)?;
 
+    if let Some(rewind_tx) = rewind_tx {
+        restore_datoms_txs(conn, rewind_tx)?;
+    }
+
     Ok((last_schema, db::read_partition_map(conn)?))
 }
 
-- 
2.43.0


From 6a3bd166fafff1d03032e1f4ae6627bacaac558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 36/48] fix: an attribute defined again has the schema facts
 left by its retraction

---
 db/src/db.rs | 21 +++++++++++++++++++++
 db/src/tx.rs | 20 +++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index a2611af..675c1c3 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1186,6 +1186,27 @@ pub fn committed_metadata_assertions(
     m
 }
 
+/// Read the schema facts that the given entities have now, as assertions.
+pub fn current_schema_assertions(
+    conn: &rusqlite::Connection,
+    entids: &[Entid],
+) -> Result<Vec<(Entid, Entid, TypedValue, bool)>> {
+    let sql_stmt = format!(
+        "SELECT e, a, v, value_type_tag, 1 FROM datoms WHERE e = ? AND a IN {}",
+        entids::SCHEMA_SQL_LIST.as_str()
+    );
+
+    let mut stmt = conn.prepare_cached(&sql_stmt)?;
+    let mut assertions = vec![];
+    for e in entids {
+        let rows = stmt.query_and_then(&[e as &dyn ToSql], row_to_transaction_assertion)?;
+        for row in rows {
+            assertions.push(row?);
+        }
+    }
+    Ok(assertions)
+}
+
 /// Takes a row, produces a transaction quadruple.
 fn row_to_transaction_assertion(row: &rusqlite::Row) -> Result<(Entid, Entid, TypedValue, bool)> {
     Ok((
diff --git a/db/src/tx.rs b/db/src/tx.rs
index 7b3920e..a6cf514 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -937,12 +937,30 @@ where
 
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
-            let metadata_assertions = match action {
+            let mut metadata_assertions = match action {
                 TransactorAction::Materialize => self.store.resolved_metadata_assertions()?,
                 TransactorAction::MaterializeAndCommit => {
                     db::committed_metadata_assertions(self.store, self.tx_id)?
                 }
             };
+
+            // An entity that becomes an attribute might already have schema facts: they can be left
+            // behind when an attribute is retracted.
+            let installed: Vec<Entid> = metadata_assertions
+                .iter()
+                .filter(|&&(e, a, _, added)| {
+                    added
+                        && a == entids::DB_VALUE_TYPE
+                        && !self.schema_for_mutation.attribute_map.contains_key(&e)
+                })
+                .map(|&(e, _, _, _)| e)
+                .collect();
+            for assertion in db::current_schema_assertions(self.store, &installed)? {
+                if !metadata_assertions.contains(&assertion) {
+                    metadata_assertions.push(assertion);
+                }
+            }
+
             let mut new_schema = (*self.schema_for_mutation).clone(); // Clone the underlying Schema for modification.
             let metadata_report = metadata::update_schema_from_entid_quadruples(
                 &mut new_schema,
-- 
2.43.0


From 7bbe8e1a555f02b5765926780883a898b86c3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 37/48] fix: upload and merge full-text values as strings

---
 tolstoy/src/tx_processor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/tx_processor.rs b/tolstoy/src/tx_processor.rs
index f4fd5ff..7addc0e 100644
--- a/tolstoy/src/tx_processor.rs
+++ b/tolstoy/src/tx_processor.rs
@@ -11,7 +11,9 @@ use std::iter::Peekable;
 
 use mentat_db::TypedSQLValue;
 
-use core_traits::{Entid, TypedValue};
+use core_traits::{Entid, TypedValue, ValueType};
+
+use mentat_core::SQLValueType;
 
 use public_traits::errors::Result;
 
@@ -128,8 +130,10 @@ impl Processor {
             Some(tx) => format!(" WHERE timeline = 0 AND tx > {} ", tx),
             None => "WHERE timeline = 0".to_string(),
         };
+        // A fulltext value is represented by its `rowid` in `fulltext_values`.
         let select_query = format!(
-            "SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            "SELECT e, a, CASE WHEN value_type_tag = {} AND typeof(v) = 'integer' THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            ValueType::String.value_type_tag(),
             tx_filter
         );
         let mut stmt = sqlite.prepare(&select_query)?;
-- 
2.43.0


From 3e19766cb41075eb6a98b0bbe3fd17ff37c3a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 38/48] fix: an incoming transaction must not make allocated
 entids available again

---
 tolstoy/src/syncer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..b0201f5 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -8,6 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
+use std::cmp::max;
 use std::fmt;
 
 use std::collections::HashSet;
@@ -30,7 +31,7 @@ use crate::bootstrap::BootstrapHelper;
 use public_traits::errors::Result;
 
 use crate::metadata::{PartitionsTable, SyncMetadata};
-use crate::schema::ensure_current_version;
+use crate::schema::{ensure_current_version, PARTITION_TX};
 use crate::tx_mapper::TxMapper;
 use crate::tx_processor::{Processor, TxReceiver};
 use crate::tx_uploader::TxUploader;
@@ -351,7 +352,15 @@ impl Syncer {
             Syncer::rewind_tx_partition_by_one(&mut partition_map)?;
             Syncer::remote_parts_to_builder(&mut builder, tx.parts)?;
 
-            // Allocate space for the incoming entids.
+            // Allocate space for the incoming entids.  Those already allocated stay so: this
+            // transaction might have been preceded by ones that allocated more.
+            for (name, part) in partition_map.iter_mut() {
+                if name != PARTITION_TX {
+                    if let Some(current) = in_progress.partition_map.get(name) {
+                        part.set_next_entid(max(part.next_entid(), current.next_entid()));
+                    }
+                }
+            }
             in_progress.partition_map = partition_map;
             let report = in_progress.transact_builder(builder)?;
             last_tx = Some((report.tx_id, tx.tx));
-- 
2.43.0


From 7305d76b7ca0a9659088d93b2b2954a8eaa142d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 39/48] fix: the remote client must run on a runtime and report
 what the remote did not accept

---
 tolstoy/src/remote_client.rs | 77 ++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 9c62071..c7d7b21 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -10,15 +10,16 @@
 
 #![allow(dead_code)]
 
-use hyper::{body, header, Body, Client, Method, Request, StatusCode};
+use hyper::{body, header, Body, Client, Method, Request, Response, StatusCode};
 use hyper_tls::HttpsConnector;
 // TODO: https://github.com/mozilla/mentat/issues/570
 // use serde_cbor;
-use futures::executor::block_on;
+use std::future::Future;
 use uuid::Uuid;
 
 use crate::logger::d;
 use public_traits::errors::Result;
+use tolstoy_traits::errors::TolstoyError;
 
 use crate::types::{GlobalTransactionLog, Tx, TxPart};
 
@@ -53,6 +54,26 @@ pub struct RemoteClient {
     user_uuid: Uuid,
 }
 
+/// Wait for some work to be done. hyper expects to be used from within a Tokio runtime.
+fn block_on<T>(work: impl Future<Output = Result<T>>) -> Result<T> {
+    tokio::runtime::Builder::new()
+        .basic_scheduler()
+        .enable_all()
+        .build()?
+        .block_on(work)
+}
+
+fn expect_status(res: &Response<Body>, expected: StatusCode) -> Result<()> {
+    if res.status() != expected {
+        bail!(TolstoyError::BadRemoteResponse(format!(
+            "expected status {}, got {}",
+            expected,
+            res.status()
+        )));
+    }
+    Ok(())
+}
+
 impl RemoteClient {
     pub fn new(base_uri: String, user_uuid: Uuid) -> Self {
         RemoteClient {
@@ -81,12 +102,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
+            let res = client.get(uri).await?;
+            expect_status(&res, StatusCode::OK)?;
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| TolstoyError::BadRemoteResponse(e.to_string()))?;
             let json: SerializedHead = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             Ok(json.head)
@@ -108,16 +129,12 @@ impl RemoteClient {
             .uri(uri)
             .header(header::CONTENT_TYPE, mime::APPLICATION_JSON.to_string())
             .body(payload.into())
-            .unwrap();
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))?;
 
         let work = async {
-            let res = client.request(req).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let status_code = res.status();
-
-            if status_code != expected {
-                d(&format!("bad put response: {:?}", status_code));
-            }
-            Ok(())
+            let res = client.request(req).await?;
+            // The remote doesn't have what it didn't accept.
+            expect_status(&res, expected)
         };
         block_on(work)
     }
@@ -138,12 +155,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
+            let res = client.get(uri).await?;
+            expect_status(&res, StatusCode::OK)?;
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| TolstoyError::BadRemoteResponse(e.to_string()))?;
             let json: SerializedTransactions = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transactions: {:?}", &json.transactions));
@@ -168,12 +185,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
+            let res = client.get(uri).await?;
+            expect_status(&res, StatusCode::OK)?;
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| TolstoyError::BadRemoteResponse(e.to_string()))?;
             let json: DeserializableTransaction = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
 
@@ -195,12 +212,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            dbg!("response.status: {}", res.status());
+            let res = client.get(uri).await?;
+            expect_status(&res, StatusCode::OK)?;
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| TolstoyError::BadRemoteResponse(e.to_string()))?;
             let json: TxPart = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transaction chunk: {:?}", &json));
-- 
2.43.0


From bbd6899b15840379b7d3d3a9e04f80c5c18c0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 40/48] fix: nothing may be done in a transaction that SQLite
 has rolled back

---
 public-traits/errors.rs |  3 +++
 transaction/src/lib.rs  | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/public-traits/errors.rs b/public-traits/errors.rs
index b3db80f..566cdb4 100644
--- a/public-traits/errors.rs
+++ b/public-traits/errors.rs
@@ -77,6 +77,9 @@ pub enum MentatError {
     #[fail(display = "Lost the transact() race!")]
     UnexpectedLostTransactRace,
 
+    #[fail(display = "the transaction was rolled back by an earlier failure")]
+    UnexpectedLostTransaction,
+
     #[fail(display = "missing core attribute {}", _0)]
     MissingCoreVocabulary(edn::query::Keyword),
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 667e5e5..734e8a2 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -153,6 +153,16 @@ pub trait Pullable {
         A: IntoIterator<Item = Entid>;
 }
 
+/// SQLite responds to some failures -- a full disk, an I/O error, an interruption -- by rolling back the
+/// whole transaction.  Whatever we did to the store from then on would not be part of a transaction at
+/// all: it would be there to stay as soon as it was done, without what preceded it.
+fn ensure_transaction(conn: &rusqlite::Connection) -> Result<()> {
+    if conn.is_autocommit() {
+        bail!(MentatError::UnexpectedLostTransaction);
+    }
+    Ok(())
+}
+
 /// Apply `f`, undoing any changes it made to the store if it fails.  The caller might go on to commit
 /// an `InProgress` after one of its transacts is rejected.
 fn all_or_nothing<T, E, F>(conn: &rusqlite::Connection, f: F) -> Result<T>
@@ -160,13 +170,26 @@ where
     F: FnOnce(&rusqlite::Connection) -> ::std::result::Result<T, E>,
     MentatError: From<E>,
 {
+    ensure_transaction(conn)?;
     conn.execute_batch("SAVEPOINT mentat_transact")?;
-    let result = f(conn);
-    if result.is_err() {
-        conn.execute_batch("ROLLBACK TO mentat_transact")?;
+    let result = f(conn).map_err(MentatError::from);
+    if conn.is_autocommit() {
+        // The savepoint went with the transaction.
+        return result.and(Err(MentatError::UnexpectedLostTransaction));
+    }
+    let ended = if result.is_err() {
+        conn.execute_batch("ROLLBACK TO mentat_transact; RELEASE mentat_transact")
+    } else {
+        conn.execute_batch("RELEASE mentat_transact")
+    };
+    if let Err(e) = ended {
+        // We no longer know what the transaction consists of, so nobody may commit it.
+        if !conn.is_autocommit() {
+            conn.execute_batch("ROLLBACK")?;
+        }
+        return result.and(Err(e.into()));
     }
-    conn.execute_batch("RELEASE mentat_transact")?;
-    result.map_err(|e| e.into())
+    result
 }
 
 impl<'a, 'c> InProgress<'a, 'c> {
@@ -342,6 +365,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
     }
 
     pub fn savepoint(&mut self, name: &str) -> Result<()> {
+        // Outside of a transaction, this would begin one.
+        ensure_transaction(&self.transaction)?;
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
         self.savepoints.push(Savepoint {
-- 
2.43.0


From ecce7e7c74576dba55e042cac6c6ec22067a54ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 41/48] fix: a failure to read values into a cache is an error,
 not a panic, and leaves the attribute uncached

---
 db/src/cache.rs          | 81 ++++++++++++++++++++++++++++++----------
 transaction/src/lib.rs   |  4 +-
 transaction/src/query.rs |  2 +-
 3 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index d3fc5cf..ee51b8c 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -203,21 +203,25 @@ impl AevFactory {
     }
 }
 
-pub struct AevRows<'conn, F> {
+pub struct AevRows<'conn, 'err, F> {
     rows: rusqlite::MappedRows<'conn, F>,
+    error: &'err mut Option<rusqlite::Error>,
 }
 
-/// Unwrap the Result from MappedRows. We could also use this opportunity to map_err it, but
-/// for now it's convenient to avoid error handling.
-impl<'conn, F> Iterator for AevRows<'conn, F>
+/// Unwrap the Result from MappedRows. An error ends the iteration; it's left for whoever began it.
+impl<'conn, 'err, F> Iterator for AevRows<'conn, 'err, F>
 where
     F: FnMut(&rusqlite::Row) -> rusqlite::Result<Aev>,
 {
     type Item = Aev;
     fn next(&mut self) -> Option<Aev> {
-        self.rows
-            .next()
-            .map(|row_result| row_result.expect("All database contents should be representable"))
+        match self.rows.next()? {
+            Ok(aev) => Some(aev),
+            Err(e) => {
+                *self.error = Some(e);
+                None
+            }
+        }
     }
 }
 
@@ -1064,14 +1068,21 @@ impl AttributeCaches {
     ) -> Result<()> {
         let mut aev_factory = AevFactory::new();
         let rows = statement.query_map(&args, |row| Ok(aev_factory.row_to_aev(row)))?;
-        let aevs = AevRows { rows };
+        let mut error = None;
+        let aevs = AevRows {
+            rows,
+            error: &mut error,
+        };
         self.accumulate_into_cache(
             None,
             schema,
             aevs.peekable(),
             AccumulationBehavior::Add { replacing },
         )?;
-        Ok(())
+        match error {
+            Some(e) => Err(e.into()),
+            None => Ok(()),
+        }
     }
 }
 
@@ -1466,7 +1477,7 @@ impl SQLiteAttributeCache {
             .ok_or_else(|| DbErrorKind::UnknownAttribute(a))?;
         let caches = self.make_mut();
         caches.forward_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1487,7 +1498,7 @@ impl SQLiteAttributeCache {
 
         let caches = self.make_mut();
         caches.reverse_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1506,7 +1517,21 @@ impl SQLiteAttributeCache {
         let caches = self.make_mut();
         caches.forward_cached_attributes.insert(a);
         caches.reverse_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
+    }
+
+    /// An attribute whose values can't all be read isn't cached.
+    fn populate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        attribute: Entid,
+    ) -> Result<()> {
+        let populated = self.make_mut().repopulate(schema, sqlite, attribute);
+        if populated.is_err() {
+            self.unregister(attribute);
+        }
+        populated
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
@@ -1647,7 +1672,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_forward.remove(&a);
         self.overlay.forward_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1672,7 +1697,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_reverse.remove(&a);
         self.overlay.reverse_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1708,17 +1733,31 @@ impl InProgressSQLiteAttributeCache {
             self.overlay.forward_cached_attributes.insert(a);
         }
 
-        self.overlay.repopulate(schema, sqlite, a)
+        self.populate(schema, sqlite, a)
+    }
+
+    /// An attribute whose values can't all be read isn't cached.
+    fn populate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        attribute: Entid,
+    ) -> Result<()> {
+        let populated = self.overlay.repopulate(schema, sqlite, attribute);
+        if populated.is_err() {
+            self.unregister(attribute);
+        }
+        populated
     }
 
     /// The shape of a cache depends on the definition of its attribute: start afresh with each cached
-    /// attribute that has been altered, and forget each that no longer exists.
+    /// attribute that has been altered, and forget each that no longer exists or that can't be read.
     pub fn schema_changed(
         &mut self,
         old: &Schema,
         new: &Schema,
         sqlite: &rusqlite::Connection,
-    ) -> Result<()> {
+    ) {
         let cached: BTreeSet<Entid> = self
             .inner
             .forward_cached_attributes
@@ -1737,13 +1776,15 @@ impl InProgressSQLiteAttributeCache {
             let reverse = self.is_attribute_cached_reverse(a);
             self.unregister(a);
             if attribute.is_some() && forward {
-                self.register_forward(new, sqlite, a)?;
+                // This leaves the attribute unregistered if it fails.
+                if self.register_forward(new, sqlite, a).is_err() {
+                    continue;
+                }
             }
             if attribute.is_some() && reverse {
-                self.register_reverse(new, sqlite, a)?;
+                let _ = self.register_reverse(new, sqlite, a);
             }
         }
-        Ok(())
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 734e8a2..556b1f0 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -227,7 +227,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.cache
-                .schema_changed(&self.schema, &schema, &self.transaction)?;
+                .schema_changed(&self.schema, &schema, &self.transaction);
             self.schema = schema;
         }
         Ok(report)
@@ -258,7 +258,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.cache
-                .schema_changed(&self.schema, &schema, &self.transaction)?;
+                .schema_changed(&self.schema, &schema, &self.transaction);
             self.schema = schema;
         }
         Ok(report)
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 961d6c7..89ef544 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -321,7 +321,7 @@ where
     let mut statement = sqlite.prepare(sql)?;
     let mut rows = run_statement(&mut statement, &bindings)?;
     let mut result = vec![];
-    while let Some(row_or_error) = rows.next().unwrap() {
+    while let Some(row_or_error) = rows.next()? {
         result.push(mapper(&row_or_error));
     }
     Ok(result)
-- 
2.43.0


From b25cd371786ed3e0326c6fd94115487e832daa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 42/48] fix: :db/noHistory is part of the definition of an
 attribute

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From 97adec4b311916b1ce88876bedaa7296304426b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 43/48] fix: EDN numbers out of range are refused, strings
 print and read back escapes, :x/_ is not reversed

---
 edn/src/lib.rs                | 52 ++++++++++++++++++++++++-----------
 edn/src/namespaceable_name.rs |  5 ++--
 edn/src/pretty_print.rs       |  4 +--
 edn/src/types.rs              | 14 ++++++----
 4 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..1542c7c 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,13 +92,13 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).map_err(|_| "octal integer that fits 64 bits") }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).map_err(|_| "hexadecimal integer that fits 64 bits") }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "integer that fits 64 bits and its base") }
     pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i.parse::<i64>().map_err(|_| "integer that fits 64 bits") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
         { OrderedFloat(f.parse::<f64>().unwrap()) }
 
@@ -109,11 +109,22 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    // An integer that is too great is neither a float, nor a small integer and a symbol.
+    rule decimal() = sign()? digit()+ !("." / (['e' | 'E']))
+    rule number() -> SpannedValue
+        = v:( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() ) !alphanumeric() { v }
+        / !decimal() v:float() !alphanumeric() { v }
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
-    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) { c }
+    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) {
+        match c {
+            "n" => "\n",
+            "t" => "\t",
+            "r" => "\r",
+            c => c,
+        }
+    }
     rule string_normal_chars() -> &'input str = c:$((!['\"' | '\\'][_])+) { c }
 
     // This is what we need to do in order to unescape. We can't just match the entire string slice:
@@ -146,19 +157,27 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|micros| {
+                    let seconds: i64 = micros / 1_000_000;
+                    let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant in range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|millis| {
+                    let seconds: i64 = millis / 1000;
+                    let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant in range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
@@ -188,6 +207,7 @@ peg::parser!(pub grammar parse() for str {
     rule keyword_prefix() = ":"
 
     pub rule symbol() -> SpannedValue =
+        !digit()
         ns:( sns:$(symbol_namespace()) namespace_separator() { sns })?
         n:$(plain_symbol_name())
         { SpannedValue::from_symbol(ns, n) }
diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 3c8e52a..2e7deb8 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -107,7 +107,8 @@ impl NamespaceableName {
 
     #[inline]
     pub fn is_backward(&self) -> bool {
-        self.name().starts_with('_')
+        // A name that is just an underscore is not another name, reversed.
+        self.name().len() > 1 && self.name().starts_with('_')
     }
 
     #[inline]
@@ -118,7 +119,7 @@ impl NamespaceableName {
     pub fn to_reversed(&self) -> NamespaceableName {
         let name = self.name();
 
-        if name.starts_with('_') {
+        if self.is_backward() {
             Self::new(self.namespace(), &name[1..])
         } else {
             Self::new(self.namespace(), &format!("_{}", name))
diff --git a/edn/src/pretty_print.rs b/edn/src/pretty_print.rs
index 297bafc..fc78822 100644
--- a/edn/src/pretty_print.rs
+++ b/edn/src/pretty_print.rs
@@ -16,7 +16,7 @@ use pretty;
 use std::borrow::Cow;
 use std::io;
 
-use crate::types::Value;
+use crate::types::{escape, Value};
 
 impl Value {
     /// Return a pretty string representation of this `Value`.
@@ -94,7 +94,7 @@ impl Value {
             Value::NamespacedSymbol(ref v) => pp.text(v.namespace()).append("/").append(v.name()),
             Value::PlainSymbol(ref v) => pp.text(v.to_string()),
             Value::Keyword(ref v) => pp.text(v.to_string()),
-            Value::Text(ref v) => pp.text("\"").append(v.as_str()).append("\""),
+            Value::Text(ref v) => pp.text("\"").append(escape(v)).append("\""),
             Value::Uuid(ref u) => pp
                 .text("#uuid \"")
                 .append(u.to_hyphenated().to_string())
diff --git a/edn/src/types.rs b/edn/src/types.rs
index 311b316..6a0baf1 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -529,9 +529,12 @@ macro_rules! def_common_value_ord {
     };
 }
 
+/// Escape the characters that end or escape a text.
+pub(crate) fn escape(s: &str) -> String {
+    s.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: Make sure float syntax is correct, handle NaN and escaping.
-// See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
         match *$value {
@@ -544,7 +547,6 @@ macro_rules! def_common_value_display {
                 v.to_rfc3339_opts(SecondsFormat::AutoSi, true)
             ),
             $t::BigInteger(ref v) => write!($f, "{}N", v),
-            // TODO: make sure float syntax is correct.
             $t::Float(ref v) => {
                 if *v == OrderedFloat(f64::INFINITY) {
                     write!($f, "#f +Infinity")
@@ -553,11 +555,11 @@ macro_rules! def_common_value_display {
                 } else if *v == OrderedFloat(f64::NAN) {
                     write!($f, "#f NaN")
                 } else {
-                    write!($f, "{}", v)
+                    // Always with a decimal point or an exponent: this is not an integer.
+                    write!($f, "{:?}", v.into_inner())
                 }
             }
-            // TODO: EDN escaping.
-            $t::Text(ref v) => write!($f, "\"{}\"", v),
+            $t::Text(ref v) => write!($f, "\"{}\"", escape(v)),
             $t::Uuid(ref u) => write!($f, "#uuid \"{}\"", u.to_hyphenated().to_string()),
             $t::PlainSymbol(ref v) => v.fmt($f),
             $t::NamespacedSymbol(ref v) => v.fmt($f),
-- 
2.43.0


From 87b1fde05a625142e7dac4d4d2fc4c563805f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 44/48] fix: an or whose every arm names nothing that exists
 matches nothing

---
 query-algebrizer/src/clauses/or.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index d606a12..3ba5471 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -354,12 +354,14 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut empty_because: Option<EmptyBecause> = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
-                        // Never mind.
+                    PlaceOrEmpty::Empty(e) => {
+                        // Never mind, unless none of them can match.
+                        empty_because = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
@@ -367,6 +369,13 @@ impl ConjoiningClauses {
             })
             .collect();
 
+        if patterns.is_empty() {
+            if let Some(e) = empty_because {
+                self.mark_known_empty(e);
+            }
+            return Ok(());
+        }
+
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
         // we're applying this `or`.
-- 
2.43.0


From 4bfa8dc47fd2aa0a22d9746a484d3efa9bb27e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 45/48] fix: refuse, rather than panic on, other sources and
 big integers in queries

---
 query-algebrizer-traits/errors.rs       |  6 ++++
 query-algebrizer/src/clauses/convert.rs |  4 ++-
 query-algebrizer/src/lib.rs             |  4 +++
 query-algebrizer/src/validate.rs        | 42 ++++++++++++++++++++++++-
 4 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer-traits/errors.rs b/query-algebrizer-traits/errors.rs
index f0f7fef..f379a59 100644
--- a/query-algebrizer-traits/errors.rs
+++ b/query-algebrizer-traits/errors.rs
@@ -103,6 +103,12 @@ pub enum AlgebrizerError {
     #[fail(display = "non-matching variables in 'not' clause")]
     NonMatchingVariablesInNotClause,
 
+    #[fail(display = "unsupported source in pattern: {}", _0)]
+    UnsupportedSource(String),
+
+    #[fail(display = "unsupported big integer: {}N", _0)]
+    UnsupportedBigInteger(String),
+
     #[fail(display = "binding error in {}: {:?}", _0, _1)]
     InvalidBinding(PlainSymbol, BindingError),
 
diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index c5c8e90..4cdd70c 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -210,7 +210,9 @@ impl ConjoiningClauses {
             }
 
             // This isn't implemented yet.
-            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
+            FnArg::Constant(NonIntegerConstant::BigInteger(x)) => {
+                bail!(AlgebrizerError::UnsupportedBigInteger(x.to_string()))
+            }
 
             // These don't make sense here.
             FnArg::Vector(_) | FnArg::SrcVar(_) => bail!(AlgebrizerError::InvalidGroundConstant),
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 8f00afb..b0534e0 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -34,6 +34,8 @@ use edn::query::{Element, FindSpec, Limit, Order, ParsedQuery, SrcVar, Variable,
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+use crate::validate::validate_patterns;
+
 pub use crate::clauses::{QueryInputs, VariableBindings};
 
 pub use crate::types::{EmptyBecause, FindQuery};
@@ -310,6 +312,8 @@ pub fn algebrize_with_inputs(
     counter: usize,
     inputs: QueryInputs,
 ) -> Result<AlgebraicQuery> {
+    validate_patterns(&parsed.where_clauses)?;
+
     let alias_counter = RcCounter::with_initial(counter);
     let mut cc =
         ConjoiningClauses::with_inputs_and_alias_counter(parsed.in_vars, inputs, alias_counter);
diff --git a/query-algebrizer/src/validate.rs b/query-algebrizer/src/validate.rs
index 58e0ad6..1cc83fc 100644
--- a/query-algebrizer/src/validate.rs
+++ b/query-algebrizer/src/validate.rs
@@ -10,10 +10,50 @@
 
 use std::collections::BTreeSet;
 
-use edn::query::{ContainsVariables, NotJoin, OrJoin, UnifyVars, Variable};
+use edn::query::{
+    ContainsVariables, NonIntegerConstant, NotJoin, OrJoin, OrWhereClause, PatternValuePlace,
+    SrcVar, UnifyVars, Variable, WhereClause,
+};
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+/// Patterns may only match the default source, and may not name values that Mentat can't store.
+/// (TODO(gburd): #280.)
+pub(crate) fn validate_patterns<'a, I>(clauses: I) -> Result<()>
+where
+    I: IntoIterator<Item = &'a WhereClause>,
+{
+    for clause in clauses {
+        match clause {
+            WhereClause::Pattern(ref p) => {
+                match p.source {
+                    None | Some(SrcVar::DefaultSrc) => (),
+                    Some(SrcVar::NamedSrc(ref name)) => {
+                        bail!(AlgebrizerError::UnsupportedSource(name.clone()))
+                    }
+                }
+                match p.value {
+                    PatternValuePlace::Constant(NonIntegerConstant::BigInteger(ref x)) => {
+                        bail!(AlgebrizerError::UnsupportedBigInteger(x.to_string()))
+                    }
+                    _ => (),
+                }
+            }
+            WhereClause::NotJoin(ref n) => validate_patterns(n.clauses.iter())?,
+            WhereClause::OrJoin(ref o) => {
+                for arm in &o.clauses {
+                    match arm {
+                        OrWhereClause::Clause(ref c) => validate_patterns(std::iter::once(c))?,
+                        OrWhereClause::And(ref cs) => validate_patterns(cs.iter())?,
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 /// In an `or` expression, every mentioned var is considered 'free'.
 /// In an `or-join` expression, every var in the var list is 'required'.
 ///
-- 
2.43.0


From 3e02ea50749177629f0bc340a67a0bb8b8b89fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 46/48] fix: a write failure while an attribute stops being
 unique is an error, not a panic

---
 db/src/db.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 675c1c3..fc7b501 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1313,13 +1313,10 @@ SELECT 1
                 &Unique => {
                     // TODO: This can fail if there are conflicting values; give a more helpful
                     // error message in this case.
-                    if unique_value_stmt
-                        .execute(&[
-                            to_bool_ref(attribute.unique.is_some()),
-                            &entid as &dyn ToSql,
-                        ])
-                        .is_err()
-                    {
+                    if let Err(e) = unique_value_stmt.execute(&[
+                        to_bool_ref(attribute.unique.is_some()),
+                        &entid as &dyn ToSql,
+                    ]) {
                         match attribute.unique {
                             Some(attribute::Unique::Value) => {
                                 bail!(DbErrorKind::SchemaAlterationFailed(format!(
@@ -1333,7 +1330,9 @@ SELECT 1
                                     entid
                                 )))
                             }
-                            None => unreachable!(), // This shouldn't happen, even after we support removing :db/unique.
+                            // No value conflicts with another because an attribute stopped being
+                            // unique: SQLite couldn't write.
+                            None => bail!(e),
                         }
                     }
                 }
-- 
2.43.0


From 60f88de8f753f3e4daa5aa857588eceb831de0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 47/48] fix: the nil UUID can be read back, and a malformed one
 is an error

---
 db/src/db.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index fc7b501..c8e2b1f 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -44,7 +44,6 @@ use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
 use crate::watcher::NullWatcher;
-use std::convert::TryInto;
 
 // In PRAGMA foo='bar', `'bar'` must be a constant string (it cannot be a
 // bound parameter), so we need to escape manually. According to
@@ -422,15 +421,15 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
             (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
+                // Every sequence of sixteen bytes is a UUID, the nil UUID included.
+                match Uuid::from_slice(x.as_slice()) {
+                    Ok(u) => Ok(TypedValue::Uuid(u)),
                     // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
+                    Err(_) => bail!(DbErrorKind::BadSQLValuePair(
                         rusqlite::types::Value::Blob(x),
                         value_type_tag
-                    ));
+                    )),
                 }
-                Ok(TypedValue::Uuid(u))
             }
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
-- 
2.43.0


From de582179b68a5dc24f099752425b240a8be9dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 48/48] fix: an index with no value or row in the C interface
 is null, not a panic or another row

---
 ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 61ebd65..d307bb7 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1846,6 +1846,9 @@ pub unsafe extern "C" fn row_at_index(
 ) -> *mut Vec<Binding> {
     assert_not_null!(rows);
     let result = &*rows;
+    if index < 0 {
+        return std::ptr::null_mut();
+    }
     result
         .row(index as usize)
         .map_or_else(std::ptr::null_mut, |v| Box::into_raw(Box::new(v.to_vec())))
@@ -1931,7 +1934,7 @@ pub unsafe extern "C" fn typed_value_list_iter_next(iter: *mut BindingIterator)
 pub unsafe extern "C" fn value_at_index(values: *mut Vec<Binding>, index: c_int) -> *mut Binding {
     assert_not_null!(values);
     let values = &*values;
-    if index < 0 || (index as usize) > values.len() {
+    if index < 0 || (index as usize) >= values.len() {
         std::ptr::null_mut()
     } else {
         // TODO: an older version of this function returned a reference into values. This
-- 
2.43.0

