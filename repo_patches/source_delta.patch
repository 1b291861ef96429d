From 46d0b5d833f2996d546d0b3c3204bf6149fd4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 01/33] fix: do not panic when the delta limit is zero

With --rrdp-max-deltas 0 all deltas were drained from the list and the
gap check then indexed into the empty list.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..daca78e 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,6 +103,16 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
+                if limit == Some(0) {
+                    // The limit does not leave any deltas to sort and verify.
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                }
+
                 if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
-- 
2.43.0


From 8a78a218142a54c835116766493c35e709dc1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 02/33] fix: do not clean up RRDP files that are referenced
 again

A snapshot or delta file that was deprecated and then became part of the
repository again (e.g. when the source returned to an earlier session)
stayed on the list of deprecated files, and was removed from the public
RRDP directory while the notification file referred to it.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index daca78e..dbbb7d7 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -387,7 +387,17 @@ impl RrdpState {
     }
 
     /// Cleans deprecated files and their parent directories if they are empty
+    ///
+    /// Files that have become part of the current state again since they were
+    /// deprecated are no longer considered deprecated.
     pub fn clean(&mut self, config: &Config) -> Result<()> {
+        let mut current: Vec<PathBuf> = self.snapshot_path().into_iter().collect();
+        for delta in &self.deltas {
+            current.push(self.mappings.path(delta.rel_path()));
+        }
+        self.deprecated_files
+            .retain(|deprecated| !current.contains(&deprecated.path));
+
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
         for deprecated in self
-- 
2.43.0


From e051d448179a3faf1cdce4fd058e91cc9f6ab9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 03/33] fix: only clean up RRDP files once they left the
 notification file

Files were marked as deprecated, and deprecated files removed, before the
notification delay and before the new notification file was in place. So
with a short clean-up period, or a notification delay, the public
notification file referred to removed files, and files were removed before
the clean-up period had passed.
---
 src/process.rs |  8 ++++++--
 src/rrdp.rs    | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..da2de61 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,6 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +139,12 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Clean up any RRDP files and empty parent directories if they had
+    // been deprecated for more than the configured 'cleanup_after' time.
+    // ===================================================================
+    rrdp_state.clean(config)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index dbbb7d7..b640860 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -338,8 +338,6 @@ impl RrdpState {
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -379,15 +377,15 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
     /// Cleans deprecated files and their parent directories if they are empty
     ///
+    /// This must be called after the notification file was updated, as it may
+    /// refer to deprecated files until then. For that reason the files that
+    /// were deprecated in this run only count as such from here on.
+    ///
     /// Files that have become part of the current state again since they were
     /// deprecated are no longer considered deprecated.
     pub fn clean(&mut self, config: &Config) -> Result<()> {
@@ -398,6 +396,11 @@ impl RrdpState {
         self.deprecated_files
             .retain(|deprecated| !current.contains(&deprecated.path));
 
+        for deprecated in self.deprecated_files.iter_mut().filter(|d| d.new) {
+            deprecated.since = Time::now();
+            deprecated.new = false;
+        }
+
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
         for deprecated in self
@@ -808,6 +811,10 @@ pub struct StagedFile {
 pub struct DeprecatedFile {
     since: Time,
     path: PathBuf,
+
+    /// Deprecated in this run
+    #[serde(skip)]
+    new: bool,
 }
 
 impl DeprecatedFile {
@@ -815,6 +822,7 @@ impl DeprecatedFile {
         DeprecatedFile {
             since: Time::now(),
             path,
+            new: true,
         }
     }
 }
-- 
2.43.0


From 338190ca464f4e9273a350c51ac2247c69eab813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 04/33] fix: put files in place atomically when copying between
 file systems

Repeating an interrupted run copied files on top of files that were already
public, so that clients could see incomplete files.
---
 src/file_ops.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..0298ab1 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -55,8 +55,12 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
+        // Move failed. Try to copy and delete instead. Use a temporary file as
+        // the target file may already be there, and be served to clients.
+        let mut tmp_file = target_file.clone().into_os_string();
+        tmp_file.push(".tmp");
+
+        std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
                 original_file.to_string_lossy(),
@@ -64,6 +68,14 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
             )
         })?;
 
+        std::fs::rename(&tmp_file, &target_file).with_context(|| {
+            format!(
+                "Cannot rename {} to {}",
+                tmp_file.to_string_lossy(),
+                target_file.to_string_lossy()
+            )
+        })?;
+
         std::fs::remove_file(&original_file).with_context(|| {
             format!(
                 "Cannot delete file from {}",
-- 
2.43.0


From 47ef7d225a7a6ff067a81a87614ea9acb56e4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 05/33] fix: keep the rsync directory of a revision that is
 current again

If the source returned to a revision for which there still was an old rsync
directory, or an interrupted run was repeated, then the revision was left on,
or even added to, the list of old revisions. Its directory was then removed
while 'current' was pointing to it.
---
 src/rsync.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..84189a0 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -185,6 +185,14 @@ impl RsyncDirState {
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
+        // The new revision may be an old revision that became current again,
+        // or even still be current if the previous run was not completed. It
+        // must not be cleaned up in either case.
+        self.old.retain(|old| old.revision != current);
+        if self.current.as_ref() == Some(&current) {
+            return;
+        }
+
         let existing = std::mem::replace(&mut self.current, Some(current));
         if let Some(existing) = existing {
             self.old.push(existing.deprecate());
-- 
2.43.0


From 0b8d28f38bee22207399d191ef630c13026da9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 06/33] fix: do not rewrite files of an rsync directory which
 is already there

Repeating an interrupted run rewrote all files of the rsync directory while
'current' was already pointing to it, so that clients could see truncated
files. The same happened to an old directory kept for existing clients in
case the source returned to that revision.
---
 src/rsync.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 84189a0..fcdbefb 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -328,13 +328,18 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         let mut bytes: Vec<u8> = vec![];
         data.read_to_end(&mut bytes)?;
 
-        file_ops::write_buf(&path, &bytes).with_context(|| {
-            format!(
-                "Could not copy element for uri: {}, to path: {}",
-                uri,
-                path.to_string_lossy()
-            )
-        })?;
+        // The directory for this revision may have been served already, or be
+        // served right now if a previous run was not completed. So, leave files
+        // which are already there alone.
+        if !matches!(file_ops::read_file(&path), Ok(existing) if existing == bytes) {
+            file_ops::write_buf(&path, &bytes).with_context(|| {
+                format!(
+                    "Could not copy element for uri: {}, to path: {}",
+                    uri,
+                    path.to_string_lossy()
+                )
+            })?;
+        }
 
         fix_since(&path, &bytes);
 
-- 
2.43.0


From b0b4e7b9851adacff8118bfbd786d129a5164a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 07/33] fix: save the state atomically

An interruption, or a full disk, while saving the state left an incomplete
state file behind, which made all following runs fail.
---
 src/file_ops.rs | 17 +++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 0298ab1..74c8c14 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,8 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+use crate::config;
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -16,6 +18,21 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Writes to a temporary file first, and then renames it. So, the file will
+/// have either its old or its new content - even if we get interrupted.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = path_with_extension(file_path, config::TMP_FILE_EXT);
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index b640860..9fcc249 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -429,7 +429,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index fcdbefb..75b4fc8 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,7 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From 22f9cab4acafbf1af539cf382c76d94b9c4cce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 08/33] fix: complete an interrupted update if the source is
 back at our version

If an update was interrupted after (part of) it had become public, and the
source then returned to the version that was last completed, then there
seemed to be no change and the public files were left as they were. Mark the
state as being updated, and do not clean up before the new state is saved as
the files for the last completed version may be needed again.
---
 src/process.rs | 13 +++++--------
 src/rrdp.rs    | 46 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index da2de61..0306e3f 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,6 +105,7 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
+    rrdp_state.start_update(config)?;
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -140,15 +141,11 @@ pub fn process(config: &Config) -> Result<()> {
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
     // ===================================================================
-    // Clean up any RRDP files and empty parent directories if they had
-    // been deprecated for more than the configured 'cleanup_after' time.
+    // Persist state, and clean up any RRDP files and empty parent
+    // directories if they had been deprecated for more than the configured
+    // 'cleanup_after' time.
     // ===================================================================
-    rrdp_state.clean(config)?;
-
-    // ===================================================================
-    // Persist state
-    // ===================================================================
-    rrdp_state.persist(&config.rrdp_state_path())?;
+    rrdp_state.complete_update(config)?;
 
     Ok(())
 }
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 9fcc249..56619e8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -38,6 +38,11 @@ pub struct RrdpState {
     /// Deprecated files - which may be cleaned up after some time
     deprecated_files: Vec<DeprecatedFile>,
 
+    /// Set while the public files are being updated. So, if this is found to
+    /// be set in saved state, then the last update was not completed.
+    #[serde(default)]
+    updating: bool,
+
     /// Embedded validator
     #[serde(skip_serializing_if = "Option::is_none")]
     validator: Option<Validator>,
@@ -57,6 +62,7 @@ impl RrdpState {
             snapshot: None,
             deltas: vec![],
             deprecated_files: vec![],
+            updating: false,
             validator: None,
         })
     }
@@ -133,6 +139,11 @@ impl RrdpState {
                                     notification_file.serial()
                                 )
                             }
+                            std::cmp::Ordering::Equal if self.updating => {
+                                // Content for another serial or session may have
+                                // been published, but we failed to complete it.
+                                debug!("The last update was not completed. Will publish serial '{}' again.", snapshot.serial());
+                            }
                             std::cmp::Ordering::Equal => {
                                 // no change, session and serial unchanged
                                 debug!("Notification file unchanged (etag not supported?), no update needed.");
@@ -383,8 +394,7 @@ impl RrdpState {
     /// Cleans deprecated files and their parent directories if they are empty
     ///
     /// This must be called after the notification file was updated, as it may
-    /// refer to deprecated files until then. For that reason the files that
-    /// were deprecated in this run only count as such from here on.
+    /// refer to deprecated files until then.
     ///
     /// Files that have become part of the current state again since they were
     /// deprecated are no longer considered deprecated.
@@ -396,11 +406,6 @@ impl RrdpState {
         self.deprecated_files
             .retain(|deprecated| !current.contains(&deprecated.path));
 
-        for deprecated in self.deprecated_files.iter_mut().filter(|d| d.new) {
-            deprecated.since = Time::now();
-            deprecated.new = false;
-        }
-
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
         for deprecated in self
@@ -424,6 +429,24 @@ impl RrdpState {
         Ok(())
     }
 
+    /// Marks the state on disk as being updated. This must be done before any
+    /// public files are changed.
+    pub fn start_update(&mut self, config: &Config) -> Result<()> {
+        self.updating = true;
+        self.persist(&config.rrdp_state_path())
+    }
+
+    /// Marks the update as completed, saves the state, and then cleans up. If
+    /// files were cleaned up before then, and we would get interrupted, then
+    /// the files for the state that we still had on disk could be gone.
+    pub fn complete_update(&mut self, config: &Config) -> Result<()> {
+        self.updating = false;
+        self.persist(&config.rrdp_state_path())?;
+
+        self.clean(config)?;
+        self.persist(&config.rrdp_state_path())
+    }
+
     /// Persist the RRDP state to disk (as json)
     pub fn persist(&self, path: &Path) -> Result<()> {
         debug!("Saving RRDP state to disk");
@@ -436,7 +459,7 @@ impl RrdpState {
     /// Writes the notification file to disk. Will first write to a
     /// temporary file and then rename it to avoid serving partially
     /// written files.
-    pub fn write_notification(&self, delay: u64) -> Result<()> {
+    pub fn write_notification(&mut self, delay: u64) -> Result<()> {
         if delay > 0 {
             info!(
                 "Waiting for configured {} seconds before updating the notification file.",
@@ -473,6 +496,13 @@ impl RrdpState {
             )
         })?;
 
+        // The old notification file referred to the files deprecated in this
+        // run. So, they only count as deprecated from here on.
+        for deprecated in self.deprecated_files.iter_mut().filter(|d| d.new) {
+            deprecated.since = Time::now();
+            deprecated.new = false;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 379e6b8aabce9d75b4251895328779dd285942b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 09/33] fix: start over if the notification URI or RRDP
 directory is changed

The saved state, including the notification file name, base URI and RRDP
directory, was used regardless of the configuration. So the files were not
published under the configured name or directory, or the public notification
file referred to files in a directory that did not have them.
---
 src/process.rs |  4 ++--
 src/rrdp.rs    | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 0306e3f..b39b32a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -11,11 +11,11 @@ pub fn process(config: &Config) -> Result<()> {
 
     // ===================================================================
     // Get the current RRDP state:
-    //  - recover if prior state exists; or
+    //  - recover if prior state exists (unless config was changed); or
     //  - create a new state based on config
     // ===================================================================
     let mut rrdp_state = if config.rrdp_state_path().exists() {
-        RrdpState::recover(&config.rrdp_state_path())?
+        RrdpState::recover(&config.rrdp_state_path())?.reset_if_config_changed(config)?
     } else {
         RrdpState::create(config)?
     };
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 56619e8..50c588a 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -93,6 +93,22 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// Start over if this state is for another notification URI, or another
+    /// RRDP directory, than the ones currently configured. But keep track of
+    /// the files that still need to be cleaned up.
+    pub fn reset_if_config_changed(self, config: &Config) -> Result<Self> {
+        if self.notification_source.uri == config.notification_uri
+            && self.mappings == SourceMappings::build(config)?
+        {
+            Ok(self)
+        } else {
+            info!("The notification URI or RRDP directory was changed.");
+            let mut new_state = Self::create(config)?;
+            new_state.deprecated_files = self.deprecated_files;
+            Ok(new_state)
+        }
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
-- 
2.43.0


From df56ddd2818532ef6def2eb7559663617c9b46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 10/33] fix: do not leave files of another layout in an rsync
 directory

If the directory for a revision was already there, and it was written with or
without --rsync-include-host unlike now, then 'current' had the files for both
layouts.
---
 src/rsync.rs | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 75b4fc8..f8dd649 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs::File,
     io::{BufReader, Read},
     path::{Path, PathBuf},
@@ -293,12 +294,49 @@ impl RsyncFromSnapshotWriter {
     fn for_snapshot_path(&mut self, snapshot: &Path) -> Result<()> {
         let source_file = File::open(snapshot)?;
         let buf_reader = BufReader::new(source_file);
-        self.process(buf_reader)?;
-        Ok(())
+        let mut written = WrittenFiles {
+            out_path: &self.out_path,
+            include_host_and_module: self.include_host_and_module,
+            paths: HashSet::new(),
+        };
+        written.process(buf_reader)?;
+        remove_other_files(&self.out_path, &written.paths)
+    }
+}
+
+/// Removes any files from the given directory which were not written for the
+/// snapshot. There can be such files in case the directory for the revision was
+/// already there, but it used another layout.
+fn remove_other_files(dir: &Path, written: &HashSet<PathBuf>) -> Result<()> {
+    if !dir.exists() {
+        return Ok(()); // there is no directory if the snapshot was empty
+    }
+
+    for entry in std::fs::read_dir(dir)
+        .with_context(|| format!("Cannot read rsync directory {}", dir.display()))?
+    {
+        let entry = entry?;
+        let path = entry.path();
+        if entry.file_type()?.is_dir() {
+            remove_other_files(&path, written)?;
+            let _ = std::fs::remove_dir(&path); // only succeeds if it is empty
+        } else if !written.contains(&path) {
+            std::fs::remove_file(&path)
+                .with_context(|| format!("Cannot remove file {}", path.display()))?;
+        }
     }
+
+    Ok(())
 }
 
-impl ProcessSnapshot for RsyncFromSnapshotWriter {
+/// Writes the files in a snapshot and keeps track of them.
+struct WrittenFiles<'a> {
+    out_path: &'a Path,
+    include_host_and_module: bool,
+    paths: HashSet<PathBuf>,
+}
+
+impl ProcessSnapshot for WrittenFiles<'_> {
     type Err = anyhow::Error;
 
     fn meta(&mut self, _session_id: Uuid, _serial: u64) -> Result<()> {
@@ -343,6 +381,8 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
 
         fix_since(&path, &bytes);
 
+        self.paths.insert(path);
+
         Ok(())
     }
 }
-- 
2.43.0


From ba4172a1df236edecd53694fd5e366999fe57d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 11/33] fix: verify that snapshot and deltas can be parsed and
 are for this version

According to the documentation a run fails if a file cannot be parsed. But the
snapshot was only parsed after it had been published - and only with rsync
enabled, and deltas not at all. So files that no client could use were
published, or public RRDP files were changed while the run failed.
---
 src/rrdp.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 50c588a..e808445 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
+    rrdp::{self, Delta, DeltaInfo, Hash, NotificationFile, Snapshot, SnapshotInfo},
     uri::Https,
 };
 
@@ -563,6 +563,17 @@ impl RrdpState {
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
+        let snapshot = Snapshot::parse(file_ops::read_file(&target)?.as_ref())
+            .with_context(|| format!("Cannot parse snapshot at: {}", snapshot_info.uri()))?;
+        if snapshot.session_id() != notification.session_id()
+            || snapshot.serial() != notification.serial()
+        {
+            return Err(anyhow!(
+                "Snapshot at {} is not for the session and serial in the notification file",
+                snapshot_info.uri()
+            ));
+        }
+
         let rel_path = self.mappings.relative(snapshot_info.uri())?;
 
         Ok(SnapshotState::create(
@@ -618,6 +629,14 @@ impl RrdpState {
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
+                let delta = Delta::parse(file_ops::read_file(&target)?.as_ref())
+                    .with_context(|| format!("Cannot parse delta at: {uri}"))?;
+                if delta.session_id() != notification.session_id() || delta.serial() != serial {
+                    return Err(anyhow!(
+                        "Delta at {uri} is not for the session and serial in the notification file"
+                    ));
+                }
+
                 let rel_path = self.mappings.relative(uri)?;
 
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
-- 
2.43.0


From 44aec52883bc2b0711c266900d8b7cc57963b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 12/33] fix: do not use an old staged file if the source sends
 no content

---
 src/fetch.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..56328d1 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -318,11 +318,14 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        match source
             .fetch(Some(hash), None, Some(target))
-            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
-
-        Ok(())
+            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?
+        {
+            FetchResponse::Saved => Ok(()),
+            // We did not ask for this, and have no file to go with it.
+            _ => Err(anyhow!("Got no content for: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From 5eac741ff9a745c7e1708368ff4d8dc0107815eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 13/33] fix: refuse snapshot and delta URIs which lead
 elsewhere on disk

---
 src/file_ops.rs |  8 ++++++++
 src/rrdp.rs     | 34 ++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 74c8c14..6b04547 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -104,6 +104,14 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     Ok(())
 }
 
+/// Returns whether a relative path found in a URI is the path of a file below
+/// any directory it may be joined to.
+pub fn is_path_below(relative: &str) -> bool {
+    relative
+        .split('/')
+        .all(|segment| !matches!(segment, "" | "." | ".."))
+}
+
 pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
     if path.is_file() {
         std::fs::remove_file(path)
diff --git a/src/rrdp.rs b/src/rrdp.rs
index e808445..df71b81 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -559,7 +559,7 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
+        let relative_name = self.relative(snapshot_info.uri())?;
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
@@ -584,6 +584,20 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path for the URI of a snapshot or delta. This must
+    /// not be in the way of the notification file.
+    fn relative(&self, uri: &Https) -> Result<String> {
+        let relative = self.mappings.relative(uri)?;
+
+        let first = relative.split('/').next().unwrap_or_default();
+        if first == self.notification_source.name() || first == self.notification_source.tmp_name()
+        {
+            return Err(anyhow!("Uri {} is reserved for the notification file", uri));
+        }
+
+        Ok(relative)
+    }
+
     pub fn snapshot_path(&self) -> Option<PathBuf> {
         self.snapshot
             .as_ref()
@@ -624,7 +638,7 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
+                let relative_path = self.relative(uri)?;
                 let target = config.staging_path(&relative_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
@@ -745,12 +759,20 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI, or
+    /// if the path could be for anything else than a file below a directory
+    /// it is joined to.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let relative = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        if file_ops::is_path_below(relative) {
+            Ok(relative.to_string())
+        } else {
+            Err(anyhow!("Uri {} cannot be used as a file path", uri))
+        }
     }
 
     /// Resolve the given relative path under the base URI.
-- 
2.43.0


From 9c98f682e62848ac717a3bdf38ecbecd3c8c3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 14/33] fix: refuse snapshots with objects which cannot be
 stored below the rsync directory

---
 src/rrdp.rs  |  5 ++++-
 src/rsync.rs | 54 ++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index df71b81..9cbef3c 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -16,7 +16,7 @@ use rpki::{
 use crate::{
     config::Config,
     fetch::{FetchMap, FetchMode, FetchSource, Fetcher, NotificationFileResponse},
-    file_ops,
+    file_ops, rsync,
     util::{self, Time},
     validation::{Tal, UriString, Validator},
 };
@@ -573,6 +573,9 @@ impl RrdpState {
                 snapshot_info.uri()
             ));
         }
+        if config.rsync_enabled() {
+            rsync::check_paths(&snapshot, config)?;
+        }
 
         let rel_path = self.mappings.relative(snapshot_info.uri())?;
 
diff --git a/src/rsync.rs b/src/rsync.rs
index f8dd649..e0b9fd9 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -5,13 +5,14 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
 use rpki::{
     repository::{sigobj::SignedObject, Cert, Crl},
-    rrdp::ProcessSnapshot,
+    rrdp::{ProcessSnapshot, Snapshot},
+    uri,
 };
 use serde::{Deserialize, Serialize};
 use uuid::Uuid;
@@ -329,6 +330,42 @@ fn remove_other_files(dir: &Path, written: &HashSet<PathBuf>) -> Result<()> {
     Ok(())
 }
 
+/// Derives the path of an object below the directory for a revision. Returns an
+/// error if the path could be for anything else than a file in there.
+fn relative_path(uri: &uri::Rsync, include_host_and_module: bool) -> Result<String> {
+    let relative = if include_host_and_module {
+        format!("{}/{}/{}", uri.authority(), uri.module_name(), uri.path())
+    } else {
+        uri.path().to_string()
+    };
+
+    if file_ops::is_path_below(&relative) {
+        Ok(relative)
+    } else {
+        Err(anyhow!("Uri {} cannot be used as a file path", uri))
+    }
+}
+
+/// Checks that all objects in the snapshot can be written to disk.
+pub fn check_paths(snapshot: &Snapshot, config: &Config) -> Result<()> {
+    let mut files = HashSet::new();
+    let mut dirs = HashSet::new();
+
+    for element in snapshot.elements() {
+        let path = PathBuf::from(relative_path(element.uri(), config.rsync_include_host)?);
+        dirs.extend(path.ancestors().skip(1).map(|dir| dir.to_path_buf()));
+        files.insert(path);
+    }
+
+    match files.intersection(&dirs).next() {
+        None => Ok(()),
+        Some(path) => Err(anyhow!(
+            "Path {} would be both a file and a directory",
+            path.display()
+        )),
+    }
+}
+
 /// Writes the files in a snapshot and keeps track of them.
 struct WrittenFiles<'a> {
     out_path: &'a Path,
@@ -348,16 +385,9 @@ impl ProcessSnapshot for WrittenFiles<'_> {
         uri: rpki::uri::Rsync,
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
-        let path = if self.include_host_and_module {
-            self.out_path.join(format!(
-                "{}/{}/{}",
-                uri.authority(),
-                uri.module_name(),
-                uri.path()
-            ))
-        } else {
-            self.out_path.join(uri.path())
-        };
+        let path = self
+            .out_path
+            .join(relative_path(&uri, self.include_host_and_module)?);
 
         // Read the bytes into memory, we will need to parse this in order
         // to fix the mtime of the file. In other words.. we _could_ copy
-- 
2.43.0


From 5793a747683bf0510a43abd3559deab836be759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 15/33] fix: remove what refused updates left in the staging
 directory

---
 src/file_ops.rs | 25 +++++++++++++++++++++++++
 src/rrdp.rs     | 20 ++++++++++++++++++++
 src/rsync.rs    | 29 +++--------------------------
 3 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 6b04547..86eb20b 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs::File,
     io::prelude::*, // for File::write_all()
     path::{Path, PathBuf},
@@ -131,6 +132,30 @@ pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
     Ok(())
 }
 
+/// Removes any files and empty directories from the given directory, except for
+/// the given files.
+pub fn remove_other_files(dir: &Path, keep: &HashSet<PathBuf>) -> Result<()> {
+    if !dir.exists() {
+        return Ok(());
+    }
+
+    for entry in std::fs::read_dir(dir)
+        .with_context(|| format!("Cannot read directory {}", dir.display()))?
+    {
+        let entry = entry?;
+        let path = entry.path();
+        if entry.file_type()?.is_dir() {
+            remove_other_files(&path, keep)?;
+            let _ = std::fs::remove_dir(&path); // only succeeds if it is empty
+        } else if !keep.contains(&path) {
+            std::fs::remove_file(&path)
+                .with_context(|| format!("Cannot remove file {}", path.display()))?;
+        }
+    }
+
+    Ok(())
+}
+
 pub fn read_file(file_path: &Path) -> Result<Bytes> {
     trace!("Loading file {}", file_path.display());
     let mut f = File::open(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 9cbef3c..fc85b9d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs,
     path::{Path, PathBuf},
 };
@@ -177,6 +178,8 @@ impl RrdpState {
                     }
                 }
 
+                self.clean_staging(&notification_file, config)?;
+
                 // Save the notification file to the staging area so that it can
                 // be used for validation.
                 {
@@ -587,6 +590,23 @@ impl RrdpState {
         ))
     }
 
+    /// Removes what earlier updates that were not applied left in the staging
+    /// directory, and what is not part of the given notification file. It would
+    /// never be used and could be in the way of other files.
+    fn clean_staging(&self, notification: &NotificationFile, config: &Config) -> Result<()> {
+        let mut keep = HashSet::new();
+        keep.insert(config.staging_path(self.notification_source.name()));
+
+        let deltas = notification.deltas().iter().map(|delta| delta.uri());
+        for uri in deltas.chain(std::iter::once(notification.snapshot().uri())) {
+            if let Ok(relative) = self.relative(uri) {
+                keep.insert(config.staging_path(&relative));
+            }
+        }
+
+        file_ops::remove_other_files(&config.staging_dir(), &keep)
+    }
+
     /// Derives the relative path for the URI of a snapshot or delta. This must
     /// not be in the way of the notification file.
     fn relative(&self, uri: &Https) -> Result<String> {
diff --git a/src/rsync.rs b/src/rsync.rs
index e0b9fd9..284c178 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -301,35 +301,12 @@ impl RsyncFromSnapshotWriter {
             paths: HashSet::new(),
         };
         written.process(buf_reader)?;
-        remove_other_files(&self.out_path, &written.paths)
+        // There can be other files in case the directory for the revision was
+        // already there, but it used another layout.
+        file_ops::remove_other_files(&self.out_path, &written.paths)
     }
 }
 
-/// Removes any files from the given directory which were not written for the
-/// snapshot. There can be such files in case the directory for the revision was
-/// already there, but it used another layout.
-fn remove_other_files(dir: &Path, written: &HashSet<PathBuf>) -> Result<()> {
-    if !dir.exists() {
-        return Ok(()); // there is no directory if the snapshot was empty
-    }
-
-    for entry in std::fs::read_dir(dir)
-        .with_context(|| format!("Cannot read rsync directory {}", dir.display()))?
-    {
-        let entry = entry?;
-        let path = entry.path();
-        if entry.file_type()?.is_dir() {
-            remove_other_files(&path, written)?;
-            let _ = std::fs::remove_dir(&path); // only succeeds if it is empty
-        } else if !written.contains(&path) {
-            std::fs::remove_file(&path)
-                .with_context(|| format!("Cannot remove file {}", path.display()))?;
-        }
-    }
-
-    Ok(())
-}
-
 /// Derives the path of an object below the directory for a revision. Returns an
 /// error if the path could be for anything else than a file in there.
 fn relative_path(uri: &uri::Rsync, include_host_and_module: bool) -> Result<String> {
-- 
2.43.0


From f208ab9d3ed966f510e929a0af37c3f2b6131715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 16/33] fix: copy between file systems using a name no
 published file can have

---
 src/file_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 86eb20b..17144b4 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -74,9 +74,9 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
 
     if std::fs::rename(&original_file, &target_file).is_err() {
         // Move failed. Try to copy and delete instead. Use a temporary file as
-        // the target file may already be there, and be served to clients.
-        let mut tmp_file = target_file.clone().into_os_string();
-        tmp_file.push(".tmp");
+        // the target file may already be there, and be served to clients. Its
+        // name cannot be part of a URI, so no file is in the way.
+        let tmp_file = target_file.with_file_name("#tmp");
 
         std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
-- 
2.43.0


From da1e7601efd7c2c7f727c29677c0a084cd34a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 17/33] fix: derive default output directories from state
 directories that are not valid UTF-8

The string replacement used the lossy display form of the state
directory, so output went to another directory next to it.
---
 src/config.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ce0f877..01b3801 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -43,15 +43,18 @@ pub const DEFAULT_RSYNC_DIR: &str = concat!("/var/lib/", crate_name!(), "/rsync"
 /// See: https://www.pathname.com/fhs/pub/fhs-2.3.html#VARLIBVARIABLESTATEINFORMATION
 pub const DEFAULT_STATE_DIR: &str = concat!("/var/lib/", crate_name!());
 
-trait Replace {
-    fn replace(&self, from_str: &str, to: &Path) -> PathBuf;
+trait Rebase {
+    fn rebase(&self, from: &str, to: &Path) -> PathBuf;
 }
 
-impl Replace for PathBuf {
-    fn replace(&self, from_str: &str, to: &Path) -> PathBuf {
-        let to_str = format!("{}", to.display());
-        let self_str = format!("{}", self.display());
-        PathBuf::from(self_str.replace(from_str, &to_str))
+impl Rebase for PathBuf {
+    /// Moves a path below `from` to the same place below `to`. This works on
+    /// the path itself, as it need not be valid UTF-8.
+    fn rebase(&self, from: &str, to: &Path) -> PathBuf {
+        match self.strip_prefix(from) {
+            Ok(relative) => to.join(relative),
+            Err(_) => self.clone(),
+        }
     }
 }
 
@@ -297,12 +300,12 @@ pub fn post_configure(mut config: Config) -> Result<Config> {
         if config.rrdp_dir == Path::new(DEFAULT_RRDP_DIR) {
             config.rrdp_dir = config
                 .rrdp_dir
-                .replace(DEFAULT_STATE_DIR, &config.state_dir);
+                .rebase(DEFAULT_STATE_DIR, &config.state_dir);
         }
         if config.rsync_dir == Path::new(DEFAULT_RSYNC_DIR) {
             config.rsync_dir = config
                 .rsync_dir
-                .replace(DEFAULT_STATE_DIR, &config.state_dir);
+                .rebase(DEFAULT_STATE_DIR, &config.state_dir);
         }
     }
 
-- 
2.43.0


From a2afe278be138d349f3f68bc25155e32151e5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:14 +0000
Subject: [PATCH 18/33] fix: save paths that are not valid UTF-8 in the RRDP
 state

The state could not be saved for such an RRDP or state directory: every
run failed after it had published, and no superseded file was removed.
---
 src/fetch.rs |  6 ++++--
 src/rrdp.rs  |  4 ++++
 src/util.rs  | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 56328d1..9c5df9e 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -20,7 +20,7 @@ use rpki::{
 };
 use serde::{Deserialize, Serialize};
 
-use crate::{config, file_ops};
+use crate::{config, file_ops, util};
 
 //------------ FetchResponse -------------------------------------------------
 pub enum FetchResponse {
@@ -74,7 +74,9 @@ impl FetchMode {
 //------------ FetchSource ---------------------------------------------------
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub enum FetchSource {
-    File(PathBuf),
+    File(
+        #[serde(deserialize_with = "util::de_path", serialize_with = "util::ser_path")] PathBuf,
+    ),
     Uri(uri::Https, FetchMode),
 }
 
diff --git a/src/rrdp.rs b/src/rrdp.rs
index fc85b9d..9035336 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -766,6 +766,7 @@ pub struct SourceMappings {
     base_uri: Https,
 
     /// Base path to where the RRDP files should be saved
+    #[serde(deserialize_with = "util::de_path", serialize_with = "util::ser_path")]
     rrdp_dir: PathBuf,
 }
 
@@ -911,7 +912,9 @@ pub struct StagedChanges {
 /// Represents a staged RRDP file.
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct StagedFile {
+    #[serde(deserialize_with = "util::de_path", serialize_with = "util::ser_path")]
     path: PathBuf,
+    #[serde(deserialize_with = "util::de_path", serialize_with = "util::ser_path")]
     destination: PathBuf,
 }
 
@@ -920,6 +923,7 @@ pub struct StagedFile {
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct DeprecatedFile {
     since: Time,
+    #[serde(deserialize_with = "util::de_path", serialize_with = "util::ser_path")]
     path: PathBuf,
 
     /// Deprecated in this run
diff --git a/src/util.rs b/src/util.rs
index 9fe75a5..8d0a5df 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,4 +1,7 @@
+use std::ffi::OsString;
 use std::fmt;
+use std::os::unix::ffi::{OsStrExt, OsStringExt};
+use std::path;
 
 use bytes::Bytes;
 use chrono::{Local, TimeZone};
@@ -46,6 +49,38 @@ impl From<rpki::repository::x509::Time> for Time {
 //------------ Serde Support -------------------------------------------------
 //----------------------------------------------------------------------------
 
+//------------ PathBuf -------------------------------------------------------
+
+/// Paths need not be valid UTF-8. Those which are not are saved as the
+/// sequence of their bytes.
+#[derive(Deserialize, Serialize)]
+#[serde(untagged)]
+enum SavedPath {
+    Text(String),
+    Bytes(Vec<u8>),
+}
+
+pub fn de_path<'de, D>(d: D) -> Result<path::PathBuf, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Ok(match SavedPath::deserialize(d)? {
+        SavedPath::Text(text) => path::PathBuf::from(text),
+        SavedPath::Bytes(bytes) => path::PathBuf::from(OsString::from_vec(bytes)),
+    })
+}
+
+pub fn ser_path<S>(path: &path::Path, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    match path.to_str() {
+        Some(text) => SavedPath::Text(text.to_string()),
+        None => SavedPath::Bytes(path.as_os_str().as_bytes().to_vec()),
+    }
+    .serialize(s)
+}
+
 //------------ Bytes ---------------------------------------------------------
 
 pub fn de_bytes<'de, D>(d: D) -> Result<Bytes, D::Error>
-- 
2.43.0


From 7aa2a324a37da200794471936e8d7f503363cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 19/33] fix: do not panic on manifest file names with
 characters not allowed in URIs

---
 src/validation/validator.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..a1ce269 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -7,7 +7,8 @@ use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
     repository::{
-        aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, manifest::ManifestHash, x509::Time, Cert, Crl,
+        Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -191,11 +192,29 @@ impl Validator {
                 }
             };
 
-            #[allow(clippy::mutable_key_type)]
-            let mut mft_entries: HashMap<_, _> = content
-                .iter_uris(sia_ca)
-                .map(|(k, v)| (UriString::from(k), v))
-                .collect();
+            // Note that the file names on a manifest may contain characters that
+            // are not allowed in a URI.
+            let mut mft_entries = HashMap::new();
+            for item in content.iter() {
+                let (file, hash) = item.into_pair();
+                match sia_ca.join(file.as_ref()) {
+                    Ok(uri) => {
+                        mft_entries.insert(
+                            UriString::from(uri),
+                            ManifestHash::new(hash, content.file_hash_alg()),
+                        );
+                    }
+                    Err(e) => {
+                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                            mft_uri_string.clone(),
+                            format!(
+                                "Invalid file name '{}' on manifest: {e}",
+                                String::from_utf8_lossy(&file)
+                            ),
+                        ));
+                    }
+                }
+            }
 
             let crl_uri = match mft_cert.crl_uri() {
                 Some(uri) => UriString::from(uri),
-- 
2.43.0


From 184a7b06a8ca59a72e73af10273947eb15ccb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 20/33] fix: do not accept revoked router certificates

---
 src/validation/validator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index a1ce269..38a6a47 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -403,6 +403,11 @@ impl Validator {
                                             }
                                         }
                                     }
+                                } else if crl.contains(child_cert.serial_number()) {
+                                    ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                        uri,
+                                        "EE certificate was revoked",
+                                    ));
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
                                     match child_cert.validate_router_at(resource_cert, strict, when)
-- 
2.43.0


From 27688672c57575c3444d48d19bdd9a1babab3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:24 +0000
Subject: [PATCH 21/33] fix: report stale manifests

---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 38a6a47..2b5b50c 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -192,6 +192,15 @@ impl Validator {
                 }
             };
 
+            if content.next_update() < when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             // Note that the file names on a manifest may contain characters that
             // are not allowed in a URI.
             let mut mft_entries = HashMap::new();
-- 
2.43.0


From 69c7a2c8f65ccf74650ad4638346a27e05f1ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 22/33] fix: detect certificates that loop back to a CA above
 them

---
 src/validation/validator.rs | 55 ++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 2b5b50c..f496596 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
+    crypto::KeyIdentifier,
     repository::{
         aspa::Aspa, error::VerificationError, manifest::ManifestHash, x509::Time, Cert, Crl,
         Manifest, ResourceCert, Roa,
@@ -109,6 +110,48 @@ impl Validator {
         ca_cert_info: &ValidatedCaCertInfo,
         offline: bool,
         when: Time,
+    ) -> ValidationReport {
+        let mut report = ValidationReport::default();
+
+        // The CA certificates still to be validated and the keys of the CAs
+        // above them. There is no limit to the depth of the tree, so we do
+        // not use recursion here.
+        let mut todo = vec![(resource_cert.clone(), ca_cert_info.clone(), vec![])];
+
+        while let Some((cert, info, mut keys)) = todo.pop() {
+            keys.push(cert.subject_key_identifier());
+            let mut children = vec![];
+            report.add_other(self.validate_ca_at(
+                &cert,
+                &info,
+                &keys,
+                &mut children,
+                offline,
+                when,
+            ));
+            todo.extend(
+                children
+                    .into_iter()
+                    .map(|(cert, info)| (cert, info, keys.clone())),
+            );
+        }
+
+        report
+    }
+
+    /// Validates the publication point of a single CA.
+    ///
+    /// The keys of this CA and those above it are used to refuse certificates
+    /// that would have the tree loop back into itself. The valid child CA
+    /// certificates are added to `child_certificates`.
+    fn validate_ca_at(
+        &mut self,
+        resource_cert: &ResourceCert,
+        ca_cert_info: &ValidatedCaCertInfo,
+        keys: &[KeyIdentifier],
+        child_certificates: &mut Vec<(ResourceCert, ValidatedCaCertInfo)>,
+        offline: bool,
+        when: Time,
     ) -> ValidationReport {
         trace!(
             "Validate CA with SIA: {} and RRDP: {}",
@@ -125,8 +168,6 @@ impl Validator {
         let mut report = ValidationReport::default();
         let mut ca_cert = ValidatedCaCertificate::empty(ca_cert_info.clone());
 
-        let mut child_certificates = vec![];
-
         {
             let mft_uri = &ca_cert_info.sia_mft;
             let sia_ca = &ca_cert_info.sia_ca;
@@ -375,6 +416,11 @@ impl Validator {
                                             uri,
                                             "certificate was revoked",
                                         ));
+                                    } else if keys.contains(&child_cert.subject_key_identifier()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate is for a CA it is issued under",
+                                        ));
                                     } else {
                                         match child_cert.validate_ca_at(resource_cert, strict, when)
                                         {
@@ -486,11 +532,6 @@ impl Validator {
         // Add the results for this CA certificate validation.
         report.add_cert(ca_cert);
 
-        // recurse child certificates
-        for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
-        }
-
         report
     }
 }
-- 
2.43.0


From 0b0e1a7ec4a047c683f094abbcaffe2944b6abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 23/33] fix: always validate the staged data of the very update

---
 src/validation/validator.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index f496596..1d6b9fc 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -68,10 +68,10 @@ impl Validator {
     }
 
     /// Ensure that the staged data is updated even if we are
-    /// running in offline mode.
+    /// running in offline mode, or updated it recently.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
         self.repositories
-            .get_latest(notify_uri, false, Time::now())?;
+            .get_latest(notify_uri, false, true, Time::now())?;
         Ok(())
     }
 
@@ -184,7 +184,7 @@ impl Validator {
                 }
             };
 
-            let data = match self.repositories.get_latest(sia_rrdp, offline, when) {
+            let data = match self.repositories.get_latest(sia_rrdp, offline, false, when) {
                 Ok(data) => data,
                 Err(e) => {
                     ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
@@ -598,11 +598,13 @@ impl VisitedRepositories {
     /// Gets the latest data for the given notify_uri.
     ///
     /// Will update local data if needed, or return existing data if
-    /// no update was needed.
+    /// no update was needed. If `force` is true, then local data is always
+    /// checked for updates no matter how recently this was done.
     fn get_latest(
         &mut self,
         notify_uri: &uri::Https,
         offline: bool,
+        force: bool,
         when: Time,
     ) -> Result<&RepositoryData> {
         let fetcher = self.get_fetcher(notify_uri);
@@ -634,12 +636,12 @@ impl VisitedRepositories {
                 //
                 // TODO: make this time configurable.
 
-                if repo_data.fetched {
+                if repo_data.fetched && !force {
                     // nothing to fetch.. don't even trace log
                 } else if offline {
                     debug!("Use cached data for {notify_uri} in offline validation mode.");
                     repo_data.fetched = true;
-                } else if repo_data.last_fetch > Time::now() - Duration::minutes(60) {
+                } else if !force && repo_data.last_fetch > Time::now() - Duration::minutes(60) {
                     debug!("Won't check {notify_uri} in this run. It was updated recently.");
                     repo_data.fetched = true;
                 } else {
-- 
2.43.0


From d505cbcf858dd28ee10c4bc4340cabe6f922bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 24/33] fix: do not fail on invalid trust anchors unless
 invalid content is to be rejected

---
 src/rrdp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 9035336..006644d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -231,7 +231,14 @@ impl RrdpState {
         if let Some(validator) = self.validator.as_mut() {
             info!("Validate using configured TALs and report on source repository");
 
-            let report = validator.validate(config.offline_validation)?;
+            let report = match validator.validate(config.offline_validation) {
+                Ok(report) => report,
+                Err(e) if !config.tal_reject_invalid => {
+                    warn!("Could not validate using configured TALs: {e}");
+                    return Ok(());
+                }
+                Err(e) => return Err(e),
+            };
 
             let notification_uri_string = UriString::from(&config.notification_uri);
 
-- 
2.43.0


From 711d910c8e9412b349577b344c9559706f206c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 25/33] fix: try to retrieve a failing repository only once per
 run

---
 src/validation/validator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 1d6b9fc..1bdf08a 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -1,5 +1,9 @@
 use core::fmt;
-use std::{collections::HashMap, convert::TryFrom, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    convert::TryFrom,
+    sync::Arc,
+};
 
 use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
@@ -40,6 +44,7 @@ impl Validator {
                     .map(|fetcher| (fetcher.notification_uri().clone(), Arc::new(fetcher)))
                     .collect(),
                 data: HashMap::new(),
+                failed: HashSet::new(),
             },
         }
     }
@@ -540,6 +545,11 @@ impl Validator {
 pub struct VisitedRepositories {
     fetchers: HashMap<uri::Https, Arc<Fetcher>>,
     data: HashMap<UriString, RepositoryData>,
+
+    // Track the repositories that we have no data for because we
+    // failed to get it in this run. We should only try once per run.
+    #[serde(skip)]
+    failed: HashSet<UriString>,
 }
 
 #[derive(Clone, Debug, Default, Deserialize, Eq, Hash, PartialEq, Serialize)]
@@ -614,6 +624,8 @@ impl VisitedRepositories {
             None => {
                 if offline {
                     debug!("Skip downloading content for {notify_uri} in offline validation mode.")
+                } else if self.failed.contains(&notify_uri_string) && !force {
+                    debug!("Skip {notify_uri}. It could not be retrieved earlier in this run.")
                 } else {
                     // We did not have any data for this notify_uri, so add
                     // it now as a new repository.
@@ -625,6 +637,7 @@ impl VisitedRepositories {
                         }
                         Err(e) => {
                             warn!("Could not update repository for {notify_uri}. Error: {e}");
+                            self.failed.insert(notify_uri_string);
                             return Err(e);
                         }
                     }
@@ -700,6 +713,7 @@ impl VisitedRepositories {
                                         Err(e) => {
                                             debug!("Could not apply snapshot for {notify_uri}, will remove content. Reason: {e}");
                                             self.data.remove(&notify_uri_string);
+                                            self.failed.insert(notify_uri_string);
                                         }
                                     }
                                 } else {
-- 
2.43.0


From a553fb5a25dcc43e4e8f041b70e6c3dec5072f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 26/33] fix: check the session and serial of snapshots and
 deltas used in validation

---
 src/validation/validator.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 1bdf08a..b0c13e5 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -786,6 +786,12 @@ impl VisitedRepositories {
                 continue;
             } else {
                 let delta = Self::read_delta_file(fetcher, delta_info.uri(), delta_info.hash())?;
+                if delta.session_id() != data.session_id || delta.serial() != delta_info.serial() {
+                    return Err(anyhow!(
+                        "delta at {} is not for the session and serial in the notification file",
+                        delta_info.uri()
+                    ));
+                }
                 for element in delta.into_elements() {
                     match element {
                         DeltaElement::Publish(publish) => {
@@ -853,6 +859,11 @@ impl VisitedRepositories {
         let hash = snapshot_uri_hash.hash();
         trace!("Read and parse snapshot file for {uri}");
         let snapshot = Self::read_snapshot_file(fetcher, uri, hash)?;
+        if snapshot.session_id() != session_id || snapshot.serial() != serial {
+            return Err(anyhow!(
+                "snapshot at {uri} is not for the session and serial in the notification file"
+            ));
+        }
 
         let elements = snapshot.into_elements();
         trace!("Processing {} objects", elements.len());
-- 
2.43.0


From 1b7a614fa664c807a1a7b4441092694acc8cf499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 27/33] fix: use existing data for all CAs if a repository
 cannot be reached

---
 src/validation/validator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index b0c13e5..d661d98 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -666,8 +666,16 @@ impl VisitedRepositories {
 
                     // Get the notification response to see if we need
                     // to update the data.
-                    let notification_response =
-                        fetcher.read_notification_file(repo_data.etag.as_ref())?;
+                    let notification_response = match fetcher
+                        .read_notification_file(repo_data.etag.as_ref())
+                    {
+                        Ok(response) => response,
+                        Err(e) if force => return Err(e),
+                        Err(e) => {
+                            warn!("Could not check {notify_uri} for updates, will use existing data. Error: {e}");
+                            NotificationFileResponse::Unmodified
+                        }
+                    };
 
                     match notification_response {
                         NotificationFileResponse::Unmodified => {
-- 
2.43.0


From fcc39f0943263cf138076636275caba12fd14d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 28/33] fix: use the snapshot if deltas do not lead to the
 announced serial

---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index d661d98..be1b4a6 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -846,6 +846,15 @@ impl VisitedRepositories {
             }
         }
 
+        // Ensure that the deltas got us there.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to {} instead of {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 648fbd2fb90cf47835a67bc85dd851f3674b70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 29/33] fix: do not panic when a time cannot be shown as a date

---
 src/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8d0a5df..c3f5a85 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,8 +34,10 @@ impl Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let time = Local.timestamp_opt(self.0, 0).unwrap();
-        write!(f, "{}", time.to_rfc3339())
+        match Local.timestamp_opt(self.0, 0).single() {
+            Some(time) => write!(f, "{}", time.to_rfc3339()),
+            None => write!(f, "{}", self.0), // out of range for a date
+        }
     }
 }
 
-- 
2.43.0


From 529c1cfa0931ab40dcf9811465e2f2aded974335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 30/33] fix: do not overflow for extreme clean-up periods

---
 src/util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c3f5a85..7f9d279 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -22,9 +22,7 @@ impl Time {
     }
 
     pub fn seconds_ago(seconds: i64) -> Self {
-        let mut now = Self::now();
-        now.0 -= seconds;
-        now
+        Time(Self::now().0.saturating_sub(seconds))
     }
 
     pub fn timestamp(&self) -> i64 {
-- 
2.43.0


From cf1d2c7eacc75d16cc8401f711c24080e83262c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 31/33] fix: do not overflow for the highest possible serial

---
 src/validation/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index be1b4a6..b29f987 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -779,7 +779,7 @@ impl VisitedRepositories {
 
         // Ensure that we have all deltas needed for our
         // current data serial.
-        if first_delta.serial() > data.serial + 1 {
+        if first_delta.serial() > data.serial.saturating_add(1) {
             return Err(anyhow!(
                 "no delta path from {} to {}",
                 data.serial,
@@ -789,7 +789,7 @@ impl VisitedRepositories {
 
         // Retrieve and apply deltas
         for delta_info in notification.deltas() {
-            if delta_info.serial() != data.serial + 1 {
+            if data.serial.checked_add(1) != Some(delta_info.serial()) {
                 // skip deltas that are already processed.
                 continue;
             } else {
-- 
2.43.0


From 8a35502ef38729a22c3b512ae0c606260760f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:44 +0000
Subject: [PATCH 32/33] fix: Do not let a delta publish over an existing object
 without its hash

---
 src/validation/validator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index b29f987..009b446 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -804,7 +804,15 @@ impl VisitedRepositories {
                     match element {
                         DeltaElement::Publish(publish) => {
                             let (uri, bytes) = publish.unpack();
-                            data.objects.insert(uri.into(), bytes.into());
+                            let uri_string = UriString::from(&uri);
+
+                            if data.objects.contains_key(&uri_string) {
+                                return Err(anyhow!(format!(
+                                    "object to publish already exists at {uri}"
+                                )));
+                            }
+
+                            data.objects.insert(uri_string, bytes.into());
                         }
                         DeltaElement::Update(update) => {
                             let (uri, hash, bytes) = update.unpack();
-- 
2.43.0


From 89f12c95245649612892b592bc56b8e28ea24021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:25 +0000
Subject: [PATCH 33/33] fix: do not overflow for two deltas with the highest
 possible serial

---
 src/rrdp.rs                 | 17 ++++++++++++++++-
 src/validation/validator.rs |  3 ++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 006644d..87d77f0 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -136,7 +136,7 @@ impl RrdpState {
                     );
                 }
 
-                if !notification_file.sort_and_verify_deltas(limit) {
+                if !sort_and_verify_deltas(&mut notification_file, limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
@@ -825,6 +825,21 @@ impl SourceMappings {
     }
 }
 
+/// Sorts the deltas of the notification file and keeps the newest up to the
+/// limit. Returns whether there are no gaps in the deltas that are left.
+///
+/// No delta can follow the one with the highest possible serial. This is
+/// checked here, because the serial following it is out of range.
+pub fn sort_and_verify_deltas(notification: &mut NotificationFile, limit: Option<usize>) -> bool {
+    notification
+        .deltas()
+        .iter()
+        .filter(|delta| delta.serial() == u64::MAX)
+        .count()
+        < 2
+        && notification.sort_and_verify_deltas(limit)
+}
+
 //------------ SnapshotState -------------------------------------------------
 
 /// Represents a parsed and thereby reconstructed RRDP snapshot file.
diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 009b446..040625c 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -22,6 +22,7 @@ use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 use uuid::Uuid;
 
 use crate::fetch::{FetchMode, Fetcher, NotificationFileResponse};
+use crate::rrdp::sort_and_verify_deltas;
 
 use super::{
     IgnoredObjectInfo, Tal, ValidatedAspa, ValidatedCaCertInfo, ValidatedCaCertificate,
@@ -767,7 +768,7 @@ impl VisitedRepositories {
 
         // Sort the deltas from low to high and check if the sequence
         // contains no gaps.
-        if !notification.sort_and_verify_deltas(None) {
+        if !sort_and_verify_deltas(&mut notification, None) {
             return Err(anyhow!("there seem to be gaps in the deltas"));
         }
 
-- 
2.43.0

