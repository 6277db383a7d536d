From 304abc618090c9a8eaa1c41a5c2fc463978aa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 01/28] fix: list partitions when the configured parallelism is
 0

---
 crates/core/src/table/listing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..a80b937 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -173,7 +173,7 @@ impl FileLister {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
                 Ok::<_, CoreError>((p, file_groups))
             })
-            .buffer_unordered(parallelism)
+            .buffer_unordered(parallelism.max(1))
             .try_for_each(|(p, file_groups)| {
                 let file_groups_map = file_groups_map.clone();
                 async move {
-- 
2.43.0


From f389166564ead6fef71a290676b8104fa37ada25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 02/28] fix: read tables that do not set the partition path
 style options

---
 crates/core/src/table/partition.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..f8f90a1 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -16,6 +16,7 @@
  * specific language governing permissions and limitations
  * under the License.
  */
+use crate::config::error::ConfigError;
 use crate::config::table::HudiTableConfig;
 use crate::config::HudiConfigs;
 use crate::error::CoreError::InvalidPartitionPath;
@@ -69,12 +70,10 @@ impl PartitionPruner {
             .collect::<Result<Vec<SchemableFilter>>>()?;
 
         let schema = Arc::new(partition_schema.clone());
-        let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
-        let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+        let is_hive_style =
+            Self::get_flag(hudi_configs, HudiTableConfig::IsHiveStylePartitioning)?;
+        let is_url_encoded =
+            Self::get_flag(hudi_configs, HudiTableConfig::IsPartitionPathUrlencoded)?;
         Ok(PartitionPruner {
             schema,
             is_hive_style,
@@ -83,6 +82,15 @@ impl PartitionPruner {
         })
     }
 
+    /// The value of a boolean config that is `false` when the table does not set it.
+    fn get_flag(hudi_configs: &HudiConfigs, config: HudiTableConfig) -> Result<bool> {
+        match hudi_configs.get(config) {
+            Ok(value) => Ok(value.to()),
+            Err(ConfigError::NotFound(_)) => Ok(false),
+            Err(e) => Err(e.into()),
+        }
+    }
+
     /// Creates an empty partition pruner that does not filter any partitions.
     pub fn empty() -> Self {
         PartitionPruner {
-- 
2.43.0


From 09ff6e8e1c3761b4039bc98514ae8ef80b524725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 03/28] fix: order the partition schema by the configured
 partition fields

---
 crates/core/src/table/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..90dfee2 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -205,19 +205,16 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
+        // Keep the order of the configured fields, which is the order of the partition path parts.
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field.clone()))
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From e9ec2e151d22b31bdb10e83adb502c8defbd2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 04/28] fix: reject malformed timestamps instead of panicking

---
 crates/core/src/timeline/instant.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..ffd7077 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -163,6 +163,13 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
+        if !timestamp.is_ascii() {
+            return Err(CoreError::Timeline(format!(
+                "Timestamp must consist of digits, but got: {timestamp}"
+            )));
+        }
+
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From d438bb4b09b769159cdb4c7c24bbb50ccdb7ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 05/28] fix: return an error for invalid table configs instead
 of panicking

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..8d59133 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From ff4c1439d16b32d10e8a1d4bc51b7ee06944bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 06/28] fix: order the partition schema by the configured
 partition fields (unused import)

---
 crates/core/src/table/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 90dfee2..539d6e3 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
-- 
2.43.0


From 4ee700a5714e33b53ef6bf73cc190320ee854d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 07/28] fix: do not hold a lock on the file system view while
 loading file metadata

---
 crates/core/src/table/fs_view.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..36cfd74 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -75,21 +75,24 @@ impl FileSystemView {
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            let file_groups = partition_entry.value();
+            for fg in file_groups.iter() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+        // The entries of the map must not be locked while waiting for the storage.
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From ca0b4ce86f7d3316365cae52deb98747c77f6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 08/28] fix: forget listed partitions that no longer exist

---
 crates/core/src/table/fs_view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 36cfd74..d84af7f 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -61,6 +61,11 @@ impl FileSystemView {
             partition_pruner.to_owned(),
         );
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
+        // Forget the partitions that an earlier query listed and that no longer exist.
+        self.partition_to_file_groups.retain(|partition_path, _| {
+            !partition_pruner.should_include(partition_path)
+                || file_groups_map.contains_key(partition_path)
+        });
         for (partition_path, file_groups) in file_groups_map {
             self.partition_to_file_groups
                 .insert(partition_path, file_groups);
-- 
2.43.0


From 4f9872652cf3ea285f035870cebe7d724b164534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 09/28] fix: keep the orientation of pushed down comparisons
 with the literal on the left

---
 crates/datafusion/src/util/expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..5adc5a8 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,17 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        // the filter has the column on the left
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From 68b1bc72e530822af61913c735790a551bc67333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 10/28] fix: do not fail scans that filter on columns other
 than partition fields

---
 crates/datafusion/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..7f96b99 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -176,7 +176,15 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        let mut pushdown_filters = exprs_to_filters(filters);
+        if !pushdown_filters.is_empty() {
+            // Only filters on partition fields can be used for partition pruning
+            let partition_schema = self.table.get_partition_schema().await.map_err(|e| {
+                Execution(format!("Failed to get partition schema of Hudi table: {}", e))
+            })?;
+            pushdown_filters
+                .retain(|(field, _, _)| partition_schema.field_with_name(field).is_ok());
+        }
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 41547c1ef38cf750875fa2fd28ad5775a4dbbbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 11/28] fix: do not reserve memory by lengths read from log
 block headers

---
 crates/core/src/file_group/log_file/reader.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..ab5aa45 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,7 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +184,14 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            // The length is not trusted: memory is reserved as the content is read.
+            let mut value_buf = Vec::new();
+            let mut value_reader = self.reader.by_ref().take(value_len as u64);
+            if value_reader.read_to_end(&mut value_buf)? != value_len as usize {
+                return Err(CoreError::ReadLogFileError(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From d5e9bb14e1633fd37c56518d715f289dd82c6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 12/28] fix: keep the base path of the table when its
 properties contain another one

---
 crates/core/src/table/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 8d59133..5c4c9ed 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -204,7 +204,11 @@ impl TableBuilder {
 
         // We currently treat all table properties as the highest precedence, which is valid for most cases.
         // TODO: handle the case where the same key is present in both table properties and options
+        // except for the base path, which is where the table properties were loaded from.
         for (k, v) in table_properties {
+            if k == HudiTableConfig::BasePath.as_ref() {
+                continue;
+            }
             options.insert(k.to_string(), v.to_string());
         }
 
-- 
2.43.0


From 16d7b9fe6f7b2d540e1fc52d252472761fc2aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 13/28] fix: fail on log command blocks of unknown type

---
 crates/core/src/file_group/log_file/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..918cd62 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -17,7 +17,7 @@
  * under the License.
  */
 use crate::config::HudiConfigs;
-use crate::file_group::log_file::log_block::LogBlock;
+use crate::file_group::log_file::log_block::{BlockType, CommandBlock, LogBlock};
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
@@ -55,7 +55,11 @@ impl LogFileScanner {
             let blocks = reader.read_all_blocks(instant_range)?;
 
             for block in &blocks {
-                if block.is_rollback_block() {
+                if block.block_type != BlockType::Command {
+                    continue;
+                }
+                // a command block of unknown type must not be ignored
+                if block.command_block_type()? == CommandBlock::Rollback {
                     rollback_targets.insert(block.target_instant_time()?.to_string());
                 }
             }
-- 
2.43.0


From 5c748c16200dcac3defb814a9fc293177bbec3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 14/28] fix: keep every write stat of a file group in commit
 metadata

---
 crates/core/src/file_group/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..4aaf6d1 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -103,7 +103,7 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 11da1f2c899e5f46f944a50d210f3ceb2c34ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 15/28] fix: treat an empty list of partition fields as an
 unpartitioned table

---
 crates/core/src/config/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/table.rs b/crates/core/src/config/table.rs
index 149938e..9d468a8 100644
--- a/crates/core/src/config/table.rs
+++ b/crates/core/src/config/table.rs
@@ -203,8 +203,11 @@ impl ConfigParser for HudiTableConfig {
                 })
                 .map(HudiConfigValue::Boolean),
             Self::KeyGeneratorClass => get_result.map(|v| HudiConfigValue::String(v.to_string())),
-            Self::PartitionFields => get_result
-                .map(|v| HudiConfigValue::List(v.split(',').map(str::to_string).collect())),
+            Self::PartitionFields => get_result.map(|v| {
+                // an empty value means that the table is not partitioned
+                let fields = v.split(',').filter(|f| !f.is_empty());
+                HudiConfigValue::List(fields.map(str::to_string).collect())
+            }),
             Self::PrecombineField => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PopulatesMetaFields => get_result
                 .and_then(|v| {
-- 
2.43.0


From e57dcf776be5ea1a97085836bd12517d5643c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 16/28] fix: recognise clustering commits by the operation name
 that writers record

---
 crates/core/src/timeline/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..2ece90c 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -188,7 +188,7 @@ impl Timeline {
                 .ok_or_else(|| {
                     CoreError::CommitMetadata("Failed to get operation type".to_string())
                 })?;
-            if op_type == "cluster" {
+            if op_type.eq_ignore_ascii_case("cluster") {
                 clustering_instants.push(instant);
             }
         }
-- 
2.43.0


From cc72e31d628abac4e5dfb7e93ef535a9da981ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 17/28] fix: reject base file names with missing or extra parts

---
 crates/core/src/file_group/base_file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..b802a4d 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,6 +57,9 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
+        if parts.len() != 3 || extension.is_empty() || parts.iter().any(|part| part.is_empty()) {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         let file_id = parts
             .first()
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-- 
2.43.0


From e96809f934cd65b93e6d2843b4dcb0ea9aff36c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 18/28] fix: do not take cdc and malformed files for data log
 files

---
 crates/core/src/file_group/log_file/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..65d0f35 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -68,6 +68,11 @@ impl LogFile {
             .rsplit_once('_')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
 
+        // A write token with a suffix (`.cdc`) denotes a file that is not a data log file.
+        if middle.contains('_') || file_write_token.contains('.') {
+            return Err(CoreError::FileGroup(err_msg.clone()));
+        }
+
         let parts: Vec<&str> = middle.split('.').collect();
         if parts.len() != 3 {
             return Err(CoreError::FileGroup(err_msg.clone()));
-- 
2.43.0


From 9185d84b049092473b01c812395f58d540fcdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 19/28] fix: reject instant file names that end with a dot

---
 crates/core/src/timeline/instant.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index ffd7077..96c5bb9 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -198,6 +198,10 @@ impl Instant {
 
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
+            Some((_, "")) => Err(CoreError::Timeline(format!(
+                "Invalid action suffix: {}",
+                action_suffix
+            ))),
             Some((action_str, state_str)) => {
                 Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
             }
-- 
2.43.0


From e825a76f6dd3bdb9de120006cea58a01a8641c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 20/28] fix: do not encode the paths of scanned files twice

---
 crates/core/src/storage/util.rs | 6 ++++++
 crates/datafusion/src/lib.rs    | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/storage/util.rs b/crates/core/src/storage/util.rs
index b26e865..fa0ef27 100644
--- a/crates/core/src/storage/util.rs
+++ b/crates/core/src/storage/util.rs
@@ -18,6 +18,7 @@
  */
 
 //! Utility functions for storage.
+use object_store::path::Path as ObjPath;
 use url::Url;
 
 use crate::storage::error::StorageError::{InvalidPath, UrlParseError};
@@ -60,6 +61,11 @@ pub fn join_url_segments(base_url: &Url, segments: &[&str]) -> Result<Url> {
     Ok(url)
 }
 
+/// Converts the (percent-encoded) path of a [Url] to the path of the object in its object store.
+pub fn to_object_path(url: &Url) -> Result<ObjPath> {
+    Ok(ObjPath::from_url_path(url.path())?)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 7f96b99..9a32366 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -45,7 +45,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
-use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
+use hudi_core::storage::util::{get_scheme_authority, join_url_segments, to_object_path};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
 
@@ -203,7 +203,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                // the path of the URL is already encoded: encoding it again names another file
+                partitioned_file.object_meta.location = to_object_path(&url)
+                    .map_err(|e| Execution(format!("Failed to get object path: {e:?}")))?;
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From 3168adf1114dbe3ef8cf6187ae6e5419ca78eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 21/28] fix: refuse timestamps that are not all digits

---
 crates/core/src/timeline/instant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 96c5bb9..787b136 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -164,7 +164,7 @@ impl Instant {
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
         Self::validate_timestamp(timestamp)?;
-        if !timestamp.is_ascii() {
+        if !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must consist of digits, but got: {timestamp}"
             )));
-- 
2.43.0


From 9a189fc444b571496bf4e317b863c6a09c18217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 22/28] fix: read local times that occur twice when daylight
 saving time ends

---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 787b136..d78127a 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -190,7 +190,8 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                // the local time occurs twice when daylight saving time ends
+                .earliest()
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From 421cb0e746662df1a53bb76912bae2d753ee3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 23/28] fix: refuse unsupported Avro types with an error
 instead of panicking

---
 crates/core/src/avro_to_arrow/schema.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..b5798f4 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,11 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => {
+            return Err(CoreError::Unsupported(format!(
+                "Avro named type reference is not supported: {name:?}"
+            )))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -140,9 +144,13 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis
+        | AvroSchema::LocalTimestampMicros
+        | AvroSchema::LocalTimestampNanos => {
+            return Err(CoreError::Unsupported(format!(
+                "Avro type is not supported: {schema:?}"
+            )))
+        }
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From 5a91504cb9d63b15ef3f5e81da3a716e7d25c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 24/28] fix: decode Avro uuid and timestamp-nanos values

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..d8f2976 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -911,6 +911,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
@@ -959,7 +960,8 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
             Value::Duration(_d) => unimplemented!(), // shenanigans type
-- 
2.43.0


From b2f62245f994829672aa1903c2254dd74be17eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 25/28] fix: decode nested Avro lists without shifting,
 dropping or panicking

---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index d8f2976..a76b186 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -457,9 +457,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Value::Boolean(child) = maybe_resolve_union(value) {
                                 // if valid boolean, append value
                                 if *child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
@@ -509,7 +509,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,7 +517,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -529,6 +529,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -557,6 +558,8 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
@@ -571,8 +574,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .len(rows.len())
                     .null_bit_buffer(Some(null_buffer.into()))
                     .child_data(arrays.into_iter().map(|a| a.to_data()).collect())
-                    .build()
-                    .unwrap()
+                    .build()?
             }
             datatype => {
                 return Err(SchemaError(format!(
@@ -586,8 +588,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             .add_buffer(Buffer::from_slice_ref(&offsets))
             .add_child_data(array_data)
             .null_bit_buffer(Some(list_nulls.into()))
-            .build()
-            .unwrap();
+            .build()?;
         Ok(Arc::new(GenericListArray::<OffsetSize>::from(list_data)))
     }
 
@@ -817,6 +818,8 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From a7caae4dd7ceb752699c131c74d9c72c893831ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 26/28] fix: refuse Avro log records that are cut short instead
 of reading null strings

---
 crates/core/src/file_group/log_file/avro.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..be40a0f 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -55,9 +55,19 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
 
         let record_content_length = u32::from_be_bytes(record_content_length);
 
+        // Read the whole record first: the decoder turns a string that is cut short into a null.
+        let mut record = Vec::new();
         let mut record_reader = (&mut self.reader).take(record_content_length as u64);
+        match record_reader.read_to_end(&mut record) {
+            Ok(size) if size == record_content_length as usize => {}
+            Ok(_) => {
+                let eof = std::io::ErrorKind::UnexpectedEof.into();
+                return Some(Err(apache_avro::Error::ReadBytes(eof)));
+            }
+            Err(e) => return Some(Err(apache_avro::Error::ReadBytes(e))),
+        }
 
-        let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        let result = from_avro_datum(&self.writer_schema, &mut record.as_slice(), None);
 
         Some(result)
     }
-- 
2.43.0


From a363a60d0e0a0459f0a87467975010e51bbc87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 27/28] fix: return an error when records are to be ordered by
 a type that cannot be sorted

---
 crates/core/src/merge/record_merger.rs |  6 +++---
 crates/core/src/util/arrow.rs          | 13 ++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..8fd6c24 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -24,7 +24,7 @@ use crate::config::table::HudiTableConfig::{
 use crate::config::HudiConfigs;
 use crate::merge::RecordMergeStrategyValue;
 use crate::metadata::meta_field::MetaField;
-use crate::util::arrow::lexsort_to_indices;
+use crate::util::arrow::try_lexsort_to_indices;
 use crate::util::arrow::ColumnAsArray;
 use crate::Result;
 use arrow::compute::take_record_batch;
@@ -107,10 +107,10 @@ impl RecordMerger {
                 let precombine_field = self.hudi_configs.get(PrecombineField)?.to::<String>();
                 let precombine_array = concat_batch.get_array(&precombine_field)?;
                 let commit_seqno_array = concat_batch.get_array(MetaField::CommitSeqno.as_ref())?;
-                let sorted_indices = lexsort_to_indices(
+                let sorted_indices = try_lexsort_to_indices(
                     &[precombine_array.clone(), commit_seqno_array.clone()],
                     true,
-                );
+                )?;
 
                 let record_key_array =
                     concat_batch.get_string_array(MetaField::RecordKey.as_ref())?;
diff --git a/crates/core/src/util/arrow.rs b/crates/core/src/util/arrow.rs
index fd8c1f4..69cdf05 100644
--- a/crates/core/src/util/arrow.rs
+++ b/crates/core/src/util/arrow.rs
@@ -52,20 +52,27 @@ impl ColumnAsArray for RecordBatch {
     }
 }
 
+/// Same as [try_lexsort_to_indices], for arrays of types that are known to be sortable.
 pub fn lexsort_to_indices(arrays: &[ArrayRef], desc: bool) -> UInt32Array {
+    try_lexsort_to_indices(arrays, desc).unwrap()
+}
+
+pub fn try_lexsort_to_indices(arrays: &[ArrayRef], desc: bool) -> Result<UInt32Array> {
     let fields = arrays
         .iter()
         .map(|a| SortField::new(a.data_type().clone()))
         .collect();
-    let converter = RowConverter::new(fields).unwrap();
-    let rows = converter.convert_columns(arrays).unwrap();
+    let converter = RowConverter::new(fields)?;
+    let rows = converter.convert_columns(arrays)?;
     let mut sort: Vec<_> = rows.iter().enumerate().collect();
     if desc {
         sort.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));
     } else {
         sort.sort_unstable_by(|(_, a), (_, b)| a.cmp(b));
     }
-    UInt32Array::from_iter_values(sort.iter().map(|(i, _)| *i as u32))
+    Ok(UInt32Array::from_iter_values(
+        sort.iter().map(|(i, _)| *i as u32),
+    ))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 71fcc7aa01903c56cfe107c7eda024dc914731e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 28/28] fix: match the columns of record batches by name when
 merging a file slice

concat_batches takes the columns of each batch by position, mixing up the
values when a log block has them in another order, and panics when a batch
has fewer columns than the base file.
---
 crates/core/src/merge/record_merger.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 8fd6c24..83f7654 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -79,6 +79,20 @@ impl RecordMerger {
         Self { hudi_configs }
     }
 
+    /// Select the columns of the schema by name. [concat_batches] takes them by position,
+    /// and panics when there are too few.
+    fn align_columns(schema: &SchemaRef, batch: &RecordBatch) -> Result<RecordBatch> {
+        let batch_schema = batch.schema_ref();
+        let names = schema.fields().iter().map(|f| f.name());
+        if names.clone().eq(batch_schema.fields().iter().map(|f| f.name())) {
+            return Ok(batch.clone());
+        }
+        let indices = names
+            .map(|name| batch_schema.index_of(name))
+            .collect::<std::result::Result<Vec<_>, _>>()?;
+        Ok(batch.project(&indices)?)
+    }
+
     pub fn merge_record_batches(
         &self,
         schema: &SchemaRef,
@@ -93,13 +107,17 @@ impl RecordMerger {
             .get_or_default(RecordMergeStrategy)
             .to::<String>();
         let merge_strategy = RecordMergeStrategyValue::from_str(&merge_strategy)?;
+        let batches = batches
+            .iter()
+            .map(|batch| Self::align_columns(schema, batch))
+            .collect::<Result<Vec<_>>>()?;
         match merge_strategy {
             RecordMergeStrategyValue::AppendOnly => {
-                let concat_batch = concat_batches(schema, batches)?;
+                let concat_batch = concat_batches(schema, &batches)?;
                 Ok(concat_batch)
             }
             RecordMergeStrategyValue::OverwriteWithLatest => {
-                let concat_batch = concat_batches(schema, batches)?;
+                let concat_batch = concat_batches(schema, &batches)?;
                 if concat_batch.num_rows() == 0 {
                     return Ok(concat_batch);
                 }
-- 
2.43.0

