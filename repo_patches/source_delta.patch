From 3869ea25ed454361e46ae41b644f442823acf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 01/49] fix: don't limit pipeline stages by CPU count (deadlock
 with fewer than four cores)

---
 src/concurrently.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..ba13f07 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,23 @@ where
     })
 }
 
+/// Run each of the given functions in its own named thread.
+/// If one fails, kill the program instead of waiting around.
+///
+/// Unlike [`concurrently`], all threads run at once regardless of the number of CPUs:
+/// these are stages of a pipeline that wait on each other,
+/// so not starting one until another finishes would be a deadlock.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From 49406b6a96cfaf96fd31dc10e0ed87ba661b7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 02/49] fix: wake a semaphore waiter for every released slot

---
 src/semaphored.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..0ff4ae9 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,11 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        // NB: Always wake someone, even if the count was already positive.
+        // If two guards are dropped before the first thread they woke gets going,
+        // the second must still wake another waiter (if there is one).
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From 816e3602b50a36ca21f179550c2fbaf7439e1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 03/49] fix: tolerate the same blob in several packs

---
 src/index.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 2face26..78b8301 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -18,7 +18,7 @@
 //! If anything ever happens to the index, we still have the same information in packs' manifests,
 //! so we can rebuild it.
 
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::{BTreeMap, BTreeSet, hash_map::Entry};
 use std::fs::{self, File};
 use std::io::prelude::*;
 use std::sync::{
@@ -27,7 +27,7 @@ use std::sync::{
     mpsc::{Receiver, SyncSender},
 };
 
-use anyhow::{Context, Result, anyhow, bail, ensure};
+use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
 use tracing::*;
@@ -271,16 +271,19 @@ pub fn blob_to_pack_map(index: &Index) -> Result<BlobMap> {
 
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
-            if let Some(other_pack) = mapping.insert(blob.id, *pack_id) {
-                // TODO: Should this just be a warning?
-                // This might happen in weird cases like concurrent backups
-                // but isn't a huge issue so long as the blobs are valid...
-                bail!(
+            // Duplicates can happen: concurrent backups might pack the same thing,
+            // and rebuilding the index picks up whatever packs interrupted commands left.
+            // That's fine! Blobs are named by their contents, so any copy will do.
+            match mapping.entry(blob.id) {
+                Entry::Vacant(v) => {
+                    v.insert(*pack_id);
+                }
+                Entry::Occupied(o) => debug!(
                     "Duplicate blob {} in pack {}, previously seen in pack {}",
                     blob.id,
                     pack_id,
-                    other_pack
-                );
+                    o.get()
+                ),
             }
         }
     }
@@ -296,8 +299,7 @@ pub fn blob_id_set(index: &Index) -> Result<FxHashSet<ObjectId>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if !blobs.insert(blob.id) {
-                // TODO: Ditto - just warn?
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
@@ -313,7 +315,7 @@ pub fn blob_to_size_map(index: &Index) -> Result<FxHashMap<ObjectId, u32>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if size_map.insert(blob.id, blob.length).is_some() {
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
-- 
2.43.0


From a756f704c288d059afaca043df66599f74023657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 04/49] fix: commands that aren't resumable must not touch
 another's WIP index

---
 src/backup.rs             | 14 +++++++++--
 src/index.rs              | 52 +++++++++++++++++----------------------
 src/ui/filter_snapshot.rs |  2 +-
 3 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..3e64a91 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -67,9 +67,12 @@ use crate::index;
 use crate::pack;
 use crate::upload;
 
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
+    /// Live fire, but don't save our progress (or touch any from some other interrupted command)
+    NotResumable,
 }
 
 pub struct Backup<'scope, 'env> {
@@ -77,6 +80,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    mode: Mode,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -97,6 +101,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // If we weren't keeping a WIP index, any that we find isn't ours. Leave it be.
+        if self.mode != Mode::LiveFire {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -154,6 +163,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        mode,
         threads,
     }
 }
@@ -187,7 +197,7 @@ fn backup_master_thread<'env>(
     let indexed_packs = &statistics.indexed_packs;
 
     let umode = match mode {
-        Mode::LiveFire => upload::Mode::LiveFire,
+        Mode::LiveFire | Mode::NotResumable => upload::Mode::LiveFire,
         Mode::DryRun => upload::Mode::DryRun,
     };
     let jobs: [(&str, Box<dyn FnOnce() -> Result<()> + Send>); 4] = [
@@ -223,7 +233,7 @@ fn backup_master_thread<'env>(
                 let resumable = match mode {
                     Mode::LiveFire => index::Resumable::Yes,
                     // Don't bother making WIP indexes for a dry run.
-                    Mode::DryRun => index::Resumable::No,
+                    Mode::DryRun | Mode::NotResumable => index::Resumable::No,
                 };
                 index::index(
                     resumable,
diff --git a/src/index.rs b/src/index.rs
index 78b8301..becd1b2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -30,6 +30,7 @@ use std::sync::{
 use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
+use tempfile::NamedTempFile;
 use tracing::*;
 
 use crate::backend;
@@ -83,13 +84,12 @@ pub fn index(
     indexed_packs: &AtomicU64,
 ) -> Result<bool> {
     let mut index = starting_index;
-    let mut persisted = None;
 
     // If we're given a non-empty index, write that out to start with.
     // (For example, it could be an index from `prune` that omits packs
     // we no longer need. If we don't write it but delete those packs anyways...)
     if !index.is_empty() && resumable == Resumable::Yes {
-        persisted = Some(to_temp_file(&index)?);
+        save_wip(&index)?;
     }
 
     // For each pack...
@@ -106,43 +106,32 @@ pub fn index(
             // Rewrite the index every time we get a pack.
             // That way the temp index should always contain a complete list of packs,
             // allowing us to resume a backup from the last finished pack.
-            persisted = Some(to_temp_file(&index)?);
+            save_wip(&index)?;
         }
     }
-    // If we haven't been saving a WIP index, write it all out now.
-    if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
-    }
 
-    if let Some((index_id, mut fh)) = persisted {
-        // We want to keep the WIP file around until we're sure we're uploaded it
-        // so that we're resumable all the way to the end.
-        // A simple but slightly kludgey way is to just copy the file and delete it
+    if !index.is_empty() {
+        // We want to keep the WIP file (if there is one) around until we're sure we've uploaded
+        // the index so that we're resumable all the way to the end.
+        // A simple but slightly kludgey way is to write a separate copy and delete the WIP file
         // once we know everything is uploaded.
         // (Other options would complicated `CachedBackend` which assumes that files
         // we're writing are passed over with their current name equalling the final one.
         // It's not a big deal; indexes are small.
-        fh.seek(std::io::SeekFrom::Start(0))?;
+        let (index_id, tf) = to_temp_file(&index)?;
         let index_name = format!("{}.index", index_id);
-        let mut renamed = fs::OpenOptions::new()
-            .create(true)
-            .truncate(true)
-            .read(true)
-            .write(true)
-            .open(&index_name)
-            .with_context(|| format!("Couldn't open {index_name} to write the final index"))?;
-        std::io::copy(&mut fh, &mut renamed)?;
-        renamed.sync_all()?;
-        drop(fh);
+        let finished = tf
+            .persist(&index_name)
+            .with_context(|| format!("Couldn't persist finished index to {index_name}"))?;
 
         debug!(
             "Index {} finished ({})",
             index_id,
-            nice_size(renamed.metadata()?.len())
+            nice_size(finished.metadata()?.len())
         );
 
         to_upload
-            .send((index_name, renamed))
+            .send((index_name, finished))
             .context("indexer -> uploader channel exited early")?;
         Ok(true)
     } else {
@@ -151,7 +140,15 @@ pub fn index(
     }
 }
 
-fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
+/// Persist a (valid!) work-in-progress index so that we can resume if interrupted.
+fn save_wip(index: &Index) -> Result<()> {
+    let (_id, tf) = to_temp_file(index)?;
+    tf.persist(WIP_NAME)
+        .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
+    Ok(())
+}
+
+fn to_temp_file(index: &Index) -> Result<(ObjectId, NamedTempFile)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
     // Probably, but we'd have to seek back to the beginning each time,
@@ -164,10 +161,7 @@ fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
         .context("Couldn't open temporary index for writing")?;
 
     let id = to_file(tf.as_file_mut(), index)?;
-    let f = tf
-        .persist(WIP_NAME)
-        .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
-    Ok((id, f))
+    Ok((id, tf))
 }
 
 fn to_file(fh: &mut fs::File, index: &Index) -> Result<ObjectId> {
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..1f4de41 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -77,7 +77,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let bmode = if args.dry_run {
         backup::Mode::DryRun
     } else {
-        backup::Mode::LiveFire
+        backup::Mode::NotResumable
     };
 
     let back_stats = backup::BackupStatistics::default();
-- 
2.43.0


From f233e31b34fe5011bdd35ee4c19331b9fc3a2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 05/49] fix: never upload an index identical to one that is
 already superseded

---
 src/backup.rs             |  5 +++++
 src/index.rs              | 24 ++++++++++++++++++++++++
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 src/ui/rebuild_index.rs   |  2 ++
 7 files changed, 35 insertions(+)

diff --git a/src/backup.rs b/src/backup.rs
index 3e64a91..59612ab 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -46,6 +46,7 @@
 //! packs (passing it to the indexer as a starting point), then feeds blobs from
 //! the partially-used packs to the packers for compaction. And so on, and so forth.
 
+use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
@@ -126,6 +127,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
     statistics: &'env BackupStatistics,
 ) -> Backup<'scope, 'env> {
     // Channels are all handoffs holding no elements - this simplifies reasoning about:
@@ -154,6 +156,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 cached_backend,
                 statistics,
                 starting_index,
+                superseded,
             )
         })
         .unwrap();
@@ -179,6 +182,7 @@ fn backup_master_thread<'env>(
     cached_backend: &'env backend::CachedBackend,
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
 ) {
     // ALL THE CONCURRENCY
 
@@ -238,6 +242,7 @@ fn backup_master_thread<'env>(
                 index::index(
                     resumable,
                     starting_index,
+                    superseded,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index becd1b2..971b3f7 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -76,9 +76,13 @@ pub enum Resumable {
 
 /// Gather metadata for completed packs from `rx` into an index file,
 /// and upload the index files when they reach a sufficient size.
+///
+/// `superseded` lists the indexes already superseded in the repository -
+/// see [`avoid_superseded`].
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
+    superseded: &BTreeSet<ObjectId>,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -118,6 +122,7 @@ pub fn index(
         // (Other options would complicated `CachedBackend` which assumes that files
         // we're writing are passed over with their current name equalling the final one.
         // It's not a big deal; indexes are small.
+        avoid_superseded(&mut index, superseded)?;
         let (index_id, tf) = to_temp_file(&index)?;
         let index_name = format!("{}.index", index_id);
         let finished = tf
@@ -140,6 +145,25 @@ pub fn index(
     }
 }
 
+/// Make sure our finished index isn't one that's already superseded.
+///
+/// Indexes are named by their contents, so backing up the same thing again after a prune
+/// can produce the very same index that the prune replaced!
+/// Since everyone ignores superseded indexes, we'd lose track of the packs in it.
+/// Change its contents (and therefore its name) by superseding that previous one ourselves.
+fn avoid_superseded(index: &mut Index, superseded: &BTreeSet<ObjectId>) -> Result<()> {
+    loop {
+        let mut hasher = HashingWriter::new(std::io::sink());
+        ciborium::into_writer(&*index, &mut hasher)?;
+        let (id, _) = hasher.finalize();
+        if !superseded.contains(&id) {
+            return Ok(());
+        }
+        debug!("Index {id} was previously superseded; writing a different one");
+        index.supersedes.insert(id);
+    }
+}
+
 /// Persist a (valid!) work-in-progress index so that we can resume if interrupted.
 fn save_wip(index: &Index) -> Result<()> {
     let (_id, tf) = to_temp_file(index)?;
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..488d019 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -162,6 +162,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             wip_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..8ea5b2a 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -111,6 +111,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
+            &dst_index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index 1f4de41..4fa7e94 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -88,6 +88,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             Index::default(),
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..c13730e 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -174,6 +174,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &backend_config,
             &cached_backend,
             new_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c0b1052..9c8a18a 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -51,6 +51,8 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         index::index(
             index::Resumable::No,
             replacing,
+            // We supersede everything; there's no way to match a previous index.
+            &BTreeSet::new(),
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From 38b7065e1cb0cf929aaf963b9f4df57e454817c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 06/49] fix: don't resume a backup or copy from an interrupted
 prune's index

---
 src/backup.rs    | 19 +++++++++++++++++++
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 59612ab..84b527d 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -273,6 +273,8 @@ pub struct ResumableBackup {
 /// Backup will just upload the packfiles in the CWD and keep trucking.
 /// Prune will want to be more careful, since it's destructive.
 /// (Is the set of superseded packs the same? Are the packs to keep the same? Else chicken out.)
+///
+/// See [`find_resumable_backup()`] for commands that only add to the repository.
 pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<ResumableBackup>> {
     let wip_index = match index::read_wip()? {
         Some(i) => i,
@@ -318,6 +320,23 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
     }))
 }
 
+/// Like [`find_resumable()`], but ignores WIP indexes that replace others.
+///
+/// Those come from an interrupted prune, and only list packs *it* wants to keep.
+/// Finishing one without doing the rest of the prune would throw away whatever else
+/// is in the indexes it supersedes!
+pub fn find_resumable_backup(
+    backend: &backend::CachedBackend,
+) -> Result<Option<ResumableBackup>> {
+    match index::read_wip()? {
+        Some(wip) if !wip.supersedes.is_empty() => {
+            warn!("WIP index file is from an interrupted prune. Starting over.");
+            Ok(None)
+        }
+        _ => find_resumable(backend),
+    }
+}
+
 fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
     let mut packfiles = vec![];
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 488d019..58ea809 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable_backup(&cached_backend)?.unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 8ea5b2a..62883a5 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable_backup(&dst_cached_backend)?.unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From fe81ab551363b3770ebd8600e8502263978df6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 07/49] fix: don't resume a prune whose index lists packs about
 to be pruned

---
 src/ui/prune.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index c13730e..b7b9bfa 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -147,6 +147,14 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does the WIP hold on to anything we're about to delete?
+        // (Snapshots might have been forgotten since.)
+        else if packs_to_prune
+            .keys()
+            .any(|p| wip_index.packs.contains_key(*p))
+        {
+            warn!("WIP index file contains packs to prune. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From 7008ada2c48ce69432e1a0ba70f4614a88d93a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 08/49] fix: honor backup --allow-repeat

---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 58ea809..1cacce6 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -249,7 +249,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
             assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-- 
2.43.0


From e25b44a836df6f6d324ca0d482fcd405393f4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 09/49] fix: don't panic when a resumed backup has nothing new
 to store

---
 src/ui/backup.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 1cacce6..2970650 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -212,13 +212,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     })?;
     if root == *tree::EMPTY_ID && !args.allow_empty {
         // We really did nothing, huh?
-        assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-        assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
-
+        // (Besides possibly uploading what some interrupted backup had finished.)
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
     }
@@ -251,12 +245,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     match prev_but_now {
         Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
-            assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
-
+            // (Besides possibly uploading what some interrupted backup had finished.)
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
         }
-- 
2.43.0


From 98c60bd07ff557574904272415f93ecd7327d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 10/49] fix: report sizes of snapshots containing empty
 directories

---
 src/tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..e5405a1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::fs;
 use std::sync::{Arc, LazyLock};
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use jiff::Timestamp;
 use rustc_hash::{FxHashMap, FxHashSet};
@@ -547,10 +547,12 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    let ts = match size_map.get(tree_id) {
+        Some(s) => *s as u64,
+        // The empty tree might not be stored at all - see ui/backup.rs
+        None if tree_id == &*EMPTY_ID => 0,
+        None => bail!("Couldn't find tree {tree_id} to get size"),
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From 7edaa5d52322e94a5e10c969a1e08c3b356ae3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 11/49] fix: don't panic if the unfilter process exits before
 its copy thread

---
 src/backend/filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..1100a6c 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -59,7 +59,6 @@ impl Read for UnfilterRead {
 
             // Make sure we actually fed all the bytes into the filter program.
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0


From 6c9e5409a96f3328b11fd4a88355ec749672f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 12/49] fix: sync files before renaming them to their final
 name

---
 src/file_util.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..c0f6542 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,15 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync before renaming, not after! Otherwise we could lose power in between
+    // and find a partial (or empty) file at `to`.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From db8a5e2fbe9e940eb68502fac1a74d6917e8a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 13/49] fix: dump refuses paths that go through a symlink

---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0


From 728963dcbb8f62cbe3686de2fa46e821aee7d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 14/49] fix: make the order of simultaneous snapshots
 deterministic

---
 src/snapshot.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..5c41ade 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -229,7 +229,8 @@ pub fn load_chronologically_with_total_size(
             }
         });
     let mut snapshots = concurrently::map_concurrently(get_snapshots);
-    snapshots.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // Break ties by ID so that the order is always the same.
+    snapshots.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     Ok((snapshots, total.load(Ordering::SeqCst)))
 }
 
@@ -296,7 +297,8 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // (With ties broken by ID, so that duplicates are next to each other.)
+    desired_snaps.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From c25a30a75ae893c149073ca29454a1ac4d1d8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 15/49] fix: refuse LAST~N with a huge N instead of panicking

---
 src/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 5c41ade..bc1456b 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -260,12 +260,15 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            [_, None, Some(n)] => n
+                .as_str()
+                .parse::<usize>()
+                .with_context(|| format!("Can't go {} snapshots back", n.as_str()))?,
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
             Some(found) => return Ok(found),
-            None => bail!("Don't have {} snapshots yet", index + 1),
+            None => bail!("Don't have more than {index} snapshots yet"),
         };
     }
 
-- 
2.43.0


From 5b9eac1cc179a999e7049b7dc8536c5b658b13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 16/49] fix: restore paths that no longer exist, and replace
 broken symlinks

---
 src/ui/restore.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..8e4973c 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,8 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                // NB: Not exists(), which follows symlinks (see above) and so misses broken ones.
+                .filter(|p| p.symlink_metadata().is_ok())
                 .collect();
 
             fs_tree::forest_from_fs(
@@ -257,9 +258,16 @@ fn load_fs_tree_and_mapping<'a>(
             "Restoring snapshot {} to its paths, {:?}",
             id, snapshot.paths
         );
+        // Whatever we're restoring might be gone (that's a great reason to restore it!)
+        let paths = snapshot
+            .paths
+            .iter()
+            .filter(|p| p.symlink_metadata().is_ok())
+            .cloned()
+            .collect();
         let (fs_id, fs_forest) = fs_tree::forest_from_fs(
             tree::Symlink::Read, // See above
-            &snapshot.paths,
+            &paths,
             Some(&snapshot.tree),
             snapshot_forest,
         )?;
-- 
2.43.0


From 10481438ded267de0047fa10954459768c2bbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 17/49] fix: restore a single-file snapshot into the output
 directory

---
 src/ui/restore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 8e4973c..13682fe 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -155,7 +155,11 @@ fn load_fs_tree_and_mapping<'a>(
 
         // See the --help doc above: If the snapshot is a single directory,
         // map it directoy to `<DIR>` in `--output <DIR>`
-        let (fs_id, fs_forest) = if snapshot.paths.len() == 1 {
+        // (But don't try to map a single *file* to a directory.)
+        let is_dir = snapshot_forest[&snapshot.tree]
+            .values()
+            .all(|n| n.kind() == NodeType::Directory);
+        let (fs_id, fs_forest) = if snapshot.paths.len() == 1 && (is_dir || !to.is_dir()) {
             // Map the last component of the snapshot dir
             // (i.e., the one entry in our top-level tree) to the output dir.
             let last_dir = snapshot.paths.iter().next().unwrap().file_name().unwrap();
@@ -218,7 +222,7 @@ fn load_fs_tree_and_mapping<'a>(
 
             (fixed_id, fs_forest)
         }
-        // If the snapshot is multiple directories,
+        // If the snapshot is multiple directories (or a file),
         // map them as subdirectories of `<DIR>` in `--output <DIR>`.
         else {
             // Map the last components of the snapshot dirs (i.e., our top-level subtree names)
-- 
2.43.0


From f789b25f12bac46d048d40f3b2dd43716f5a5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 18/49] fix: restore --times sets directory times after
 changing their contents

---
 src/ui/restore.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 13682fe..ef49c56 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -127,7 +127,14 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         (&snapshot.tree, &snapshot_forest),
         Utf8Path::new(""),
         &mut res,
-    )
+    )?;
+
+    // Adding and removing files changed the modification time of the directories they're in.
+    // Now that we're done with that, set those right.
+    if args.times && !args.dry_run {
+        res.restore_dir_times(&snapshot.tree, &snapshot_forest, Utf8Path::new(""))?;
+    }
+    Ok(())
 }
 
 struct FsTreeAndMapping<'a> {
@@ -367,6 +374,24 @@ impl Restorer<'_> {
         Ok(())
     }
 
+    /// Set the times of all directories in the given tree (children first).
+    fn restore_dir_times(&self, tree: &ObjectId, forest: &Forest, prefix: &Utf8Path) -> Result<()> {
+        let tree: &tree::Tree = forest
+            .get(tree)
+            .ok_or_else(|| anyhow!("Missing tree {tree}"))
+            .unwrap();
+
+        for (path, node) in tree {
+            if let NodeContents::Directory { subtree } = &node.contents {
+                let tree_path = prefix.join(path);
+                let node_path = self.translate_path(&tree_path);
+                self.restore_dir_times(subtree, forest, &tree_path)?;
+                self.set_metadata(&node_path, node)?;
+            }
+        }
+        Ok(())
+    }
+
     #[cfg(windows)]
     fn set_metadata(&self, _node_path: &Utf8Path, _node: &Node) -> Result<()> {
         todo!("lol windows metadata");
-- 
2.43.0


From 88fa91d7b75e5712842a5696449339e809aa8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 19/49] fix: don't panic on packs with a truncated blob stream

---
 src/pack.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..058f3d2 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -454,9 +454,11 @@ pub fn append_to_forest<R: Read + Seek>(
         };
         let entry_length = entry.length as u64;
         if skip {
-            assert_eq!(
-                entry_length,
-                io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?
+            let skipped = io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?;
+            ensure!(
+                skipped == entry_length,
+                "Pack ended in the middle of blob {}",
+                entry.id
             );
             continue;
         }
-- 
2.43.0


From 5fdb83cebf3ff2d78a9d02a01a7d7749fc0fafdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 20/49] fix: read blobs whose contents are both a file's and a
 tree's

---
 src/pack.rs | 27 ++++++++++++++-------------
 src/read.rs | 11 ++---------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index 058f3d2..7afc7b1 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -442,18 +442,9 @@ pub fn append_to_forest<R: Read + Seek>(
     let mut decoder = ZstdDecoder::new(packfile).context("Decompression of blob stream failed")?;
 
     for entry in manifest_from_index {
-        // If it's not a tree, or if we have it already, skip it!
-        let skip = if entry.blob_type != blob::Type::Tree {
-            warn!(
-                "Chunk {} found in pack where we expected only trees",
-                entry.id
-            );
-            true
-        } else {
-            forest.contains_key(&entry.id)
-        };
+        // If we have it already, skip it!
         let entry_length = entry.length as u64;
-        if skip {
+        if forest.contains_key(&entry.id) {
             let skipped = io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?;
             ensure!(
                 skipped == entry_length,
@@ -465,8 +456,18 @@ pub fn append_to_forest<R: Read + Seek>(
 
         let mut hashing_decoder = HashingReader::new((&mut decoder).take(entry_length));
 
-        let to_add: tree::Tree = ciborium::from_reader(&mut hashing_decoder)
-            .with_context(|| format!("CBOR decoding of tree {} failed", entry.id))?;
+        // Blobs are deduplicated by ID, and a file can have the exact same contents as some tree
+        // (the empty one is a single byte!), so the tree we want might be stored as a chunk.
+        // But most chunks aren't trees, so don't get mad about those.
+        let decoded = ciborium::from_reader(&mut hashing_decoder);
+        if entry.blob_type == blob::Type::Chunk {
+            io::copy(&mut hashing_decoder, &mut io::sink())?;
+            if decoded.is_err() {
+                continue;
+            }
+        }
+        let to_add: tree::Tree =
+            decoded.with_context(|| format!("CBOR decoding of tree {} failed", entry.id))?;
 
         let (hash, _) = hashing_decoder.finalize();
         ensure!(
diff --git a/src/read.rs b/src/read.rs
index a0e38b5..c962f90 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -9,7 +9,6 @@ use rustc_hash::FxHashSet;
 use tracing::*;
 
 use crate::backend;
-use crate::blob;
 use crate::counters;
 use crate::file_util;
 use crate::hashing::{HashingReader, ObjectId};
@@ -192,14 +191,8 @@ impl<'a> ChunkReader<'a> {
         let mut bytes_read = 0;
         let mut blob_buf = vec![];
         for entry in manifest {
-            if entry.blob_type != blob::Type::Chunk {
-                warn!(
-                    "Tree {} found in pack where we expected only chunks",
-                    entry.id
-                );
-                continue;
-            }
-
+            // NB: Don't skip trees! Blobs are deduplicated by ID, so if a file has
+            // the exact same contents as some tree, that might be the only copy we have.
             blob_buf.clear();
             blob_buf.reserve(entry.length as usize);
 
-- 
2.43.0


From d2eec96d9dd345d4e7ee965f187a178b471461e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 21/49] fix: restore --times handles fractional seconds before
 1970

---
 src/ui/restore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index ef49c56..331684e 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -300,9 +300,13 @@ fn load_fs_tree_and_mapping<'a>(
 
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
+    // Timestamp's seconds and nanoseconds share a sign.
+    // But tv_nsec must be positive, so round tv_sec down for times before 1970.
+    const NANOS: i128 = 1_000_000_000;
+    let nanos = t.as_nanosecond();
     Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+        tv_sec: nanos.div_euclid(NANOS) as i64,
+        tv_nsec: nanos.rem_euclid(NANOS) as i64,
     }
 }
 
-- 
2.43.0


From d758f8d223c19cd379958f7263b8bab7d2e9e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 22/49] fix: forget DUPLICATES keeps snapshots with different
 paths, authors, or tags

---
 src/ui/forget.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/ui/forget.rs b/src/ui/forget.rs
index a30aecf..ff695ef 100644
--- a/src/ui/forget.rs
+++ b/src/ui/forget.rs
@@ -56,29 +56,26 @@ fn forget_duplicate_snapshots(
     dry_run: bool,
 ) -> Result<bool> {
     let mut success = true;
-    let mut last_unique_snapshot_and_tree: Option<(ObjectId, ObjectId)> = None;
-
-    for (snapshot, id) in snapshots.iter() {
-        if last_unique_snapshot_and_tree.is_none() {
-            last_unique_snapshot_and_tree = Some((*id, snapshot.tree));
-            continue;
-        }
-
-        let (last_unique_snapshot, last_unique_tree) =
-            last_unique_snapshot_and_tree.as_ref().unwrap();
-
-        if snapshot.tree != *last_unique_tree {
-            last_unique_snapshot_and_tree = Some((*id, snapshot.tree));
-            continue;
+    let mut last_unique: Option<&(snapshot::Snapshot, ObjectId)> = None;
+
+    for current in snapshots.iter() {
+        let (snapshot, id) = current;
+        match last_unique {
+            // Hey, a duplicate! Like `backup`, expect everything but the time to match.
+            Some((last, last_id)) if is_duplicate(snapshot, last) => {
+                info!("Snapshot {} is a duplicate of {}", id, last_id);
+                success &= forget_snapshot(cached_backend, id, dry_run);
+            }
+            _ => last_unique = Some(current),
         }
-
-        // Hey, a duplicate tree!
-        info!("Snapshot {} is a duplicate of {}", id, last_unique_snapshot);
-        success &= forget_snapshot(cached_backend, id, dry_run);
     }
     Ok(success)
 }
 
+fn is_duplicate(a: &snapshot::Snapshot, b: &snapshot::Snapshot) -> bool {
+    a.tree == b.tree && a.paths == b.paths && a.author == b.author && a.tags == b.tags
+}
+
 fn forget_snapshot_list(
     cached_backend: &backend::CachedBackend,
     snapshots: &[(snapshot::Snapshot, ObjectId)],
-- 
2.43.0


From 556a404eabb4703519f090568560a4e45fab19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 23/49] fix: forget nothing if any given snapshot can't be
 found

---
 src/ui/forget.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/ui/forget.rs b/src/ui/forget.rs
index ff695ef..9fd2cac 100644
--- a/src/ui/forget.rs
+++ b/src/ui/forget.rs
@@ -40,7 +40,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     let success = if args.to_forget == ["DUPLICATES"] {
         forget_duplicate_snapshots(&cached_backend, &snapshots, args.dry_run)?
     } else {
-        forget_snapshot_list(&cached_backend, &snapshots, &args)
+        forget_snapshot_list(&cached_backend, &snapshots, &args)?
     };
 
     if success {
@@ -80,22 +80,15 @@ fn forget_snapshot_list(
     cached_backend: &backend::CachedBackend,
     snapshots: &[(snapshot::Snapshot, ObjectId)],
     args: &Args,
-) -> bool {
-    let mut success = true;
-
-    for id_prefix in &args.to_forget {
-        let (_snap, id) = match crate::snapshot::find(snapshots, id_prefix) {
-            Ok(id) => id,
-            Err(e) => {
-                error!("{:?}", e);
-                success = false;
-                continue;
-            }
-        };
+) -> Result<bool> {
+    // Find everything before removing anything: if one of these is a typo, do nothing.
+    let to_forget = snapshot::from_args_list(snapshots, &args.to_forget)?;
 
+    let mut success = true;
+    for (_snap, id) in &to_forget {
         success &= forget_snapshot(cached_backend, id, args.dry_run);
     }
-    success
+    Ok(success)
 }
 
 fn forget_snapshot(cached_backend: &backend::CachedBackend, id: &ObjectId, dry_run: bool) -> bool {
-- 
2.43.0


From 29bda8c19ca918268b57914d7411ded4c11b6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 24/49] fix: restore does not write into special files in the
 destination

---
 src/ui/restore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 331684e..4b089a7 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -419,7 +419,9 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
-                let fh = File::create(node_path)
+                // Nothing should be here. Don't write into (or block on) special files,
+                // which we skipped when walking the filesystem.
+                let fh = File::create_new(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
             }
-- 
2.43.0


From c361e8306a7ab5730a52f1969d7192883fe06dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:28 +0000
Subject: [PATCH 25/49] fix: read .backpak even when there is no global
 configuration file

---
 src/config.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b7257d6..362be18 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -71,13 +71,14 @@ pub fn load(p: Option<Utf8PathBuf>) -> Result<Configuration> {
         }
     };
     let confpath = confpath?;
-    let s = match fs::read_to_string(&confpath) {
-        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(Configuration::default()),
-        found => found,
-    }
-    .with_context(|| format!("Couldn't open {confpath}"))?;
-    let mut conf: Configuration =
-        toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?;
+    let mut conf: Configuration = match fs::read_to_string(&confpath) {
+        // No config doesn't mean there's no .backpak
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Configuration::default(),
+        found => {
+            let s = found.with_context(|| format!("Couldn't open {confpath}"))?;
+            toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?
+        }
+    };
     let local_conf = load_cwd()?;
     // We have <> at home.
     if let Some(lc) = local_conf {
-- 
2.43.0


From dec46173d721aaa9adc8c3491439dd65a1c2db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 26/49] fix: dry runs leave packs and indexes of interrupted
 commands alone

Finished packs and indexes were persisted under their final names and then
deleted, even if an interrupted backup had left the very same files
(which its WIP index might list) in the working directory.
Let those of a dry run keep their temporary names.
---
 src/backup.rs           |  7 +++++--
 src/index.rs            |  8 +++++---
 src/pack.rs             | 43 ++++++++++++++++++++++++++++-------------
 src/ui/rebuild_index.rs | 11 ++++++-----
 src/upload.rs           | 32 +++++++++++++++++++++++++++++-
 5 files changed, 77 insertions(+), 24 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 84b527d..8375a83 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -208,7 +208,8 @@ fn backup_master_thread<'env>(
         (
             "chunk packer",
             Box::new(move || {
-                pack::pack(
+                pack::pack_with_mode(
+                    umode,
                     pack_size,
                     chunk_rx,
                     chunk_index_tx,
@@ -221,7 +222,8 @@ fn backup_master_thread<'env>(
         (
             "tree packer",
             Box::new(move || {
-                pack::pack(
+                pack::pack_with_mode(
+                    umode,
                     pack_size,
                     tree_rx,
                     tree_index_tx,
@@ -240,6 +242,7 @@ fn backup_master_thread<'env>(
                     Mode::DryRun | Mode::NotResumable => index::Resumable::No,
                 };
                 index::index(
+                    umode,
                     resumable,
                     starting_index,
                     superseded,
diff --git a/src/index.rs b/src/index.rs
index 971b3f7..9051520 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,6 +39,7 @@ use crate::counters;
 use crate::file_util::{check_magic, nice_size};
 use crate::hashing::{HashingReader, HashingWriter, ObjectId};
 use crate::pack::{PackManifest, PackMetadata};
+use crate::upload;
 
 const MAGIC_BYTES: &[u8] = b"MKBAKIDX1";
 
@@ -79,7 +80,10 @@ pub enum Resumable {
 ///
 /// `superseded` lists the indexes already superseded in the repository -
 /// see [`avoid_superseded`].
+///
+/// A dry run's index doesn't get its final name - see [`upload::name_finished`].
 pub fn index(
+    mode: upload::Mode,
     resumable: Resumable,
     starting_index: Index,
     superseded: &BTreeSet<ObjectId>,
@@ -125,9 +129,7 @@ pub fn index(
         avoid_superseded(&mut index, superseded)?;
         let (index_id, tf) = to_temp_file(&index)?;
         let index_name = format!("{}.index", index_id);
-        let finished = tf
-            .persist(&index_name)
-            .with_context(|| format!("Couldn't persist finished index to {index_name}"))?;
+        let (index_name, finished) = upload::name_finished(mode, tf, index_name)?;
 
         debug!(
             "Index {} finished ({})",
diff --git a/src/pack.rs b/src/pack.rs
index 7afc7b1..41d0745 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -36,6 +36,7 @@ use crate::file_util::{self, nice_size};
 use crate::hashing::{HashingReader, ObjectId};
 use crate::progress::AtomicCountWrite;
 use crate::tree;
+use crate::upload;
 
 pub const MAGIC_BYTES: &[u8] = b"MKBAKPAK1";
 
@@ -78,6 +79,27 @@ pub fn pack(
     to_upload: SyncSender<(String, File)>,
     total_bytes_packed: &AtomicU64,
     total_bytes_compressed: &AtomicU64,
+) -> Result<()> {
+    pack_with_mode(
+        upload::Mode::LiveFire,
+        target_size,
+        rx,
+        to_index,
+        to_upload,
+        total_bytes_packed,
+        total_bytes_compressed,
+    )
+}
+
+/// [`pack`], but a dry run's packs don't get their final names.
+pub fn pack_with_mode(
+    mode: upload::Mode,
+    target_size: Byte,
+    rx: Receiver<Blob>,
+    to_index: SyncSender<PackMetadata>,
+    to_upload: SyncSender<(String, File)>,
+    total_bytes_packed: &AtomicU64,
+    total_bytes_compressed: &AtomicU64,
 ) -> Result<()> {
     let target_size = target_size.as_u64();
     let mut writer = PackfileWriter::new(total_bytes_compressed)?;
@@ -169,11 +191,9 @@ pub fn pack(
         }
 
         if end_pack {
-            let (metadata, persisted) = writer.finalize()?;
-            let finalized_path = format!("{}.pack", metadata.id);
-
+            let (metadata, finished) = writer.finalize(mode)?;
             to_upload
-                .send((finalized_path, persisted))
+                .send(finished)
                 .context("packer -> uploader channel exited early")?;
             to_index
                 .send(metadata)
@@ -186,10 +206,9 @@ pub fn pack(
         }
     }
     if bytes_in_pack > 0 {
-        let (metadata, persisted) = writer.finalize()?;
-        let finalized_path = format!("{}.pack", metadata.id);
+        let (metadata, finished) = writer.finalize(mode)?;
         to_upload
-            .send((finalized_path, persisted))
+            .send(finished)
             .context("packer -> uploader channel exited early")?;
         to_index
             .send(metadata)
@@ -260,9 +279,9 @@ impl<'a> PackfileWriter<'a> {
         Ok(pos)
     }
 
-    /// Finalize the packfile, returning the manifest & ID with a handle to
+    /// Finalize the packfile, returning the manifest & ID with the name of and a handle to
     /// the persisted file (so that the uploader doesn't have to reopen it).
-    fn finalize(self) -> Result<(PackMetadata, File)> {
+    fn finalize(self, mode: upload::Mode) -> Result<(PackMetadata, (String, File))> {
         let (manifest, id) = serialize_and_hash(&self.manifest)?;
 
         // Finish the compression stream for blobs and trees.
@@ -286,16 +305,14 @@ impl<'a> PackfileWriter<'a> {
         // All done! Sync, persist, and go home.
         fh.as_file().sync_all()?;
         let pack_name = format!("{}.pack", id);
-        let persisted = fh
-            .persist(&pack_name)
-            .with_context(|| format!("Couldn't persist finished pack to {}", pack_name))?;
+        let finished = upload::name_finished(mode, fh, pack_name)?;
 
         Ok((
             PackMetadata {
                 id,
                 manifest: self.manifest,
             },
-            persisted,
+            finished,
         ))
     }
 }
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index 9c8a18a..8b72dcf 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -47,8 +47,14 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     let (upload_tx, upload_rx) = sync_channel(0);
 
     let indexed_packs = AtomicU64::new(0); // TODO: Progress CLI!
+    let umode = if args.dry_run {
+        upload::Mode::DryRun
+    } else {
+        upload::Mode::LiveFire
+    };
     let indexer = thread::spawn(move || {
         index::index(
+            umode,
             index::Resumable::No,
             replacing,
             // We supersede everything; there's no way to match a previous index.
@@ -77,11 +83,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     concurrently::concurrently(read_packs);
     drop(pack_tx);
 
-    let umode = if args.dry_run {
-        upload::Mode::DryRun
-    } else {
-        upload::Mode::LiveFire
-    };
     upload::upload(umode, &cached_backend, upload_rx)?;
 
     // NB: Before deleting the old indexes, we make sure the new one's been written.
diff --git a/src/upload.rs b/src/upload.rs
index 21febd3..4307bb2 100644
--- a/src/upload.rs
+++ b/src/upload.rs
@@ -4,15 +4,45 @@
 use std::fs::File;
 use std::sync::mpsc::Receiver;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
+use tempfile::NamedTempFile;
 
 use crate::backend;
 
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
 }
 
+/// Give a finished file its final name so that it can be [uploaded](upload).
+///
+/// A dry run throws its files away, so those keep their temporary names:
+/// an interrupted backup might have left a file with the same final name,
+/// and it's not ours to overwrite and delete.
+pub fn name_finished(mode: Mode, tf: NamedTempFile, name: String) -> Result<(String, File)> {
+    match mode {
+        Mode::LiveFire => {
+            let fh = tf
+                .persist(&name)
+                .with_context(|| format!("Couldn't persist finished file to {name}"))?;
+            Ok((name, fh))
+        }
+        Mode::DryRun => {
+            let (fh, path) = tf
+                .keep()
+                .with_context(|| format!("Couldn't keep temporary file for {name}"))?;
+            // Like all of them, it's in the working directory.
+            let path = path
+                .file_name()
+                .and_then(|n| n.to_str())
+                .context("Temporary file has no name")?
+                .to_owned();
+            Ok((path, fh))
+        }
+    }
+}
+
 pub fn upload(
     mode: Mode,
     cached_backend: &backend::CachedBackend,
-- 
2.43.0


From 4284c280cd539b68484921d69b263543762e77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 27/49] fix: cache transactions wait for other connections
 instead of failing

Deferred transactions that read before they write fail with SQLITE_BUSY(_SNAPSHOT)
as soon as another connection has written in between - no busy timeout helps.
Copying between two cached repositories has two connections of its own,
so it failed with "database is locked" depending on timing.
---
 src/backend/cache.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 0dc23ac..3d18a22 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -7,7 +7,7 @@ use std::{
 use anyhow::{Context, Result, anyhow, bail};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
-use rusqlite::Connection;
+use rusqlite::{Connection, TransactionBehavior};
 
 use crate::counters::{Op, bump};
 use crate::file_util;
@@ -38,7 +38,10 @@ impl Cache {
     pub fn new(dir: &Utf8Path, cache_size: Byte) -> Result<Self> {
         let mut conn = Connection::open(dir.join("cache_metadata.sqlite"))?;
 
-        let t = conn.transaction()?;
+        // All our transactions write, and other connections might be at it, too
+        // (we have two of our own when copying). A deferred transaction that reads first can't
+        // wait for them - once its turn comes to write, it'd just fail with SQLITE_BUSY.
+        let t = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
         let ver: i32 = t.query_row("PRAGMA user_version", (), |r| r.get(0))?;
         if ver < 1 {
             t.execute(
@@ -143,7 +146,7 @@ impl Cache {
     pub fn prune(&self) -> Result<()> {
         // We want this all to be atomic.
         let mut c = self.conn.lock().unwrap();
-        let transaction = c.transaction()?;
+        let transaction = c.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         // Get the max cache size.
         let max_size: i64 =
-- 
2.43.0


From dd8f85328793ffe2ab31c12896cf45617fea9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:48 +0000
Subject: [PATCH 28/49] fix: load snapshots before indexes so that finishing
 backups don't break readers

---
 src/ui/backup.rs          | 4 +++-
 src/ui/check.rs           | 9 +++++++--
 src/ui/copy.rs            | 4 +++-
 src/ui/diff.rs            | 4 +++-
 src/ui/filter_snapshot.rs | 4 +++-
 src/ui/restore.rs         | 4 +++-
 src/ui/usage.rs           | 6 ++++--
 7 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 2970650..9bd24c3 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -118,11 +118,13 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         backend::CacheBehavior::Normal,
     )?;
 
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
     info!("Finding a parent snapshot");
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let parent = parent_snapshot(&paths, &snapshots);
     let parent = parent.as_ref();
 
diff --git a/src/ui/check.rs b/src/ui/check.rs
index 328adc9..ad92826 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -50,6 +50,9 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         backend::CacheBehavior::AlwaysRead,
     )?;
 
+    // List snapshots before loading the index so that we can't see a snapshot from a backup that's
+    // just finished without seeing the packs it uses.
+    let snapshots = cached_backend.list_snapshots()?;
     let index = index::build_master_index(&cached_backend)?;
 
     info!("Downloading pack list");
@@ -119,6 +122,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
 
     // Map the chunks that belong in each snapshot.
     let chunks_to_snapshots = map_chunks_to_snapshots(
+        &snapshots,
         &cached_backend,
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
@@ -195,13 +199,14 @@ pub fn warn_on_unreachable_packs(index: &index::Index, all_packs: &[(String, u64
 
 /// Maps all reachable chunks to the set of snapshots that use them
 fn map_chunks_to_snapshots(
+    snapshots: &[(String, u64)],
     cached_backend: &backend::CachedBackend,
     tree_cache: &mut tree::Cache,
 ) -> Result<FxHashMap<ObjectId, FxHashSet<ObjectId>>> {
     let mut chunks_to_snapshots = FxHashMap::default();
 
-    for (snapshot_path, _snapshot_len) in cached_backend.list_snapshots()? {
-        let snapshot_id = backend::id_from_path(&snapshot_path)?;
+    for (snapshot_path, _snapshot_len) in snapshots {
+        let snapshot_id = backend::id_from_path(snapshot_path)?;
         let snapshot = snapshot::load(&snapshot_id, cached_backend)?;
 
         let snapshot_tree = tree::forest_from_root(&snapshot.tree, tree_cache)?;
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 62883a5..042ba43 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -60,10 +60,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_index = index::build_master_index(&src_cached_backend)?;
     let src_blob_map = index::blob_to_pack_map(&src_index)?;
 
-    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_snapshots = if args.target.all {
         src_snapshots
     } else {
diff --git a/src/ui/diff.rs b/src/ui/diff.rs
index bf8d86a..bf18ac9 100644
--- a/src/ui/diff.rs
+++ b/src/ui/diff.rs
@@ -51,11 +51,13 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot1, id1) = snapshot::find(&snapshots, &args.first_snapshot)?;
     let snapshot1_forest = tree::forest_from_root(&snapshot1.tree, &mut tree_cache)?;
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index 4fa7e94..4d67946 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -55,10 +55,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (target, target_id) = snapshot::find(&chrono_snapshots, &args.target_snapshot)?;
 
     let snapshot_and_forest = repack::load_forest(
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 4b089a7..c4f9e09 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -99,10 +99,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot, id) = snapshot::find(&snapshots, &args.restore_from)?;
     let snapshot_forest = tree::forest_from_root(
         &snapshot.tree,
diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index ad278fc..f68dd2e 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -12,6 +12,10 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before the index so that we can't see a snapshot from a backup that's just
+    // finished without seeing the packs it uses.
+    let (snapshots, snapshot_size) =
+        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     let (index, index_sizes) = index::build_master_index_with_sizes(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
@@ -20,8 +24,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
     let mut reachable_blobs = FxHashSet::default();
     let reachable_blob_size;
 
-    let (snapshots, snapshot_size) =
-        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     if snapshots.is_empty() {
         reachable_blob_size = 0u64;
         println!("0 snapshots");
-- 
2.43.0


From 986b7cb7c995020df8879402c402badfd2818ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 29/49] fix: wait to turn on the cache's write-ahead log while
 others create it

---
 src/backend/cache.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 3d18a22..307b348 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -2,12 +2,14 @@ use std::{
     fs::{self, File},
     io::prelude::*,
     sync::Mutex,
+    thread,
+    time::Duration,
 };
 
 use anyhow::{Context, Result, anyhow, bail};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
-use rusqlite::{Connection, TransactionBehavior};
+use rusqlite::{Connection, ErrorCode, TransactionBehavior};
 
 use crate::counters::{Op, bump};
 use crate::file_util;
@@ -32,6 +34,24 @@ pub struct Cache {
 // 1G. Make this configurable with global settings (~/.config/backpak?)
 pub const DEFAULT_SIZE: Byte = Byte::GIBIBYTE;
 
+/// Switch to write-ahead logging, returning the resulting journal mode.
+///
+/// Unlike a transaction, this doesn't wait for other connections - if another process
+/// is creating the same database, it just fails with SQLITE_BUSY. Give it a few seconds.
+fn set_wal(conn: &Connection) -> rusqlite::Result<String> {
+    let mut tries = 0;
+    loop {
+        let res = conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0));
+        match &res {
+            Err(e) if e.sqlite_error_code() == Some(ErrorCode::DatabaseBusy) && tries < 500 => {
+                tries += 1;
+                thread::sleep(Duration::from_millis(10));
+            }
+            _ => return res,
+        }
+    }
+}
+
 impl Cache {
     /// Create a cache given the database connection - let users handle the creation
     /// to make it easy to pass in `Connection::open_in_memory()`, etc.
@@ -65,7 +85,7 @@ impl Cache {
         t.execute("PRAGMA user_version=1", ())?;
         t.commit()?;
 
-        let jm: String = conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0))?;
+        let jm = set_wal(&conn)?;
         // The journal mode could be memory if this is an in-memory DB for unit tests.
         assert!(jm == "wal" || jm == "memory", "sqlite: Couldn't set WAL");
 
-- 
2.43.0


From 80a625bcb49d19216957bc7f8affcb6b0d1a7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 30/49] fix: don't let prune replace the indexes when repacking
 fails

An error walking the snapshots closed the channels to the other threads, which took it as the end
of the work and uploaded an incomplete index superseding all the others.
---
 src/ui/prune.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index b7b9bfa..a2236fc 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -10,6 +10,7 @@ use tracing::*;
 use crate::backend;
 use crate::backup;
 use crate::config::Configuration;
+use crate::fatal;
 use crate::file_util::nice_size;
 use crate::hashing::ObjectId;
 use crate::index;
@@ -197,7 +198,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         let run_res = (|| {
             // Finish the WIP resume business.
             if !args.dry_run {
-                backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
+                backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)
+                    .unwrap_or_else(|e| fatal(e));
             }
             drop(packs_to_upload);
 
@@ -207,6 +209,9 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             // We don't skip over anything as we prune; that'd leave us in a nasty state.
             let filter = |_p: &Utf8Path| true;
 
+            // If we can't walk it all, bail on the spot: closing the channels tells the other
+            // threads we're done, and they'd upload a new index superseding all the old ones
+            // without having packed everything those hold.
             repack::walk_snapshots(
                 repack::Op::Prune,
                 &snapshots_and_forests,
@@ -215,7 +220,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 &mut packed_blobs,
                 &mut backup,
                 &walk_stats,
-            )?;
+            )
+            .unwrap_or_else(|e| fatal(e));
 
             // NB: Before deleting the old indexes, we make sure the new one's been written.
             //     This ensures there's no point in time when we don't have a valid index
-- 
2.43.0


From c33595b43ab88dba74aa46fc2947b37a4112bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:52 +0000
Subject: [PATCH 31/49] b2: allow verification to log in elsewhere

Guarded by the cfg backpak_verif.
---
 b2/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index a11e43d..d1e785d 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -1,3 +1,6 @@
+// The cfg below isn't one Cargo knows about.
+#![allow(unexpected_cfgs)]
+
 use base64::prelude::*;
 use serde_json as json;
 use thiserror::Error;
@@ -47,13 +50,25 @@ fn noredir() -> ureq::Agent {
     ureq::Agent::new_with_config(ureq::Agent::config_builder().max_redirects(0).build())
 }
 
+/// Where to log in
+#[cfg(not(backpak_verif))]
+fn api_url() -> String {
+    "https://api.backblazeb2.com".to_owned()
+}
+
+/// Where to log in: verification brings its own (simulated) object store.
+#[cfg(backpak_verif)]
+fn api_url() -> String {
+    std::env::var("BACKPAK_B2_API").expect("BACKPAK_B2_API isn't set")
+}
+
 impl Session {
     pub fn new<S: Into<String>>(key_id: &str, application_key: &str, bucket: S) -> Result<Self> {
         let bucket = bucket.into();
 
         let creds = String::from(key_id) + ":" + application_key;
         let auth = String::from("Basic") + &BASE64_STANDARD.encode(creds);
-        let v: json::Value = ureq::get("https://api.backblazeb2.com/b2api/v3/b2_authorize_account")
+        let v: json::Value = ureq::get(&(api_url() + "/b2api/v3/b2_authorize_account"))
             .header("Authorization", &auth)
             .call()?
             .body_mut()
-- 
2.43.0


From 26fc06a2ca7abb434eaa3e0183e5c169390d7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 32/49] fix: send the whole object when retrying an upload

The first try reads (some of) the contents, so the next one sent less than it promised
and waited for an answer that never came.
---
 src/backend.rs            | 6 +++++-
 src/backend/backblaze.rs  | 8 ++++++--
 src/backend/filter.rs     | 2 +-
 src/backend/fs.rs         | 2 +-
 src/backend/memory.rs     | 2 +-
 src/backend/semaphored.rs | 2 +-
 src/progress.rs           | 8 +++++++-
 7 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index 53f15d9..9d2879e 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -99,13 +99,17 @@ pub fn write_config<W: Write>(mut w: W, c: Configuration) -> Result<()> {
     Ok(())
 }
 
+/// What we upload. It can be rewound in case we need to try again.
+pub trait Upload: Read + Seek + Send {}
+impl<T> Upload for T where T: Read + Seek + Send {}
+
 /// A backend is anything we can read from, write to, list, and remove items from.
 pub trait Backend {
     /// Read from the given key
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>>;
 
     /// Write the given read stream to the given key
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()>;
+    fn write(&self, len: u64, from: &mut dyn Upload, to: &str) -> Result<()>;
 
     fn remove(&self, which: &str) -> Result<()>;
 
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f15629d..409f366 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -72,8 +72,12 @@ impl Backend for BackblazeBackend {
         Ok(Box::new(r))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        retry(|| self.session.put(to, len, from))?;
+    fn write(&self, len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
+        retry(|| {
+            // If this isn't our first try, the last one could have read who knows how much.
+            from.rewind()?;
+            self.session.put(to, len, from)
+        })?;
         Ok(())
     }
 
diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 1100a6c..56b6de3 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -99,7 +99,7 @@ impl Backend for BackendFilter {
         }))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
         debug!("{} > {to}", self.filter);
 
         let mut f = Command::new("sh")
diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index da54923..bc0071e 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -84,7 +84,7 @@ impl Backend for FilesystemBackend {
         ))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
         let to = self.path_of(to);
         file_util::safe_copy_to_file(from, &to)?;
         Ok(())
diff --git a/src/backend/memory.rs b/src/backend/memory.rs
index c8a09a1..3431d66 100644
--- a/src/backend/memory.rs
+++ b/src/backend/memory.rs
@@ -44,7 +44,7 @@ impl Backend for MemoryBackend {
         Ok(Box::new(self.read_cursor(from)?))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
         let mut vec = Vec::new();
         io::copy(from, &mut vec)?;
         self.files.lock().unwrap().insert(to.to_owned(), vec);
diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index ee591ba..8849d32 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -23,7 +23,7 @@ impl<B: Backend> Backend for Semaphored<B> {
         self.inner.read(from)
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
         let _sem = semaphored::dec(&self.count);
         self.inner.write(len, from, to)
     }
diff --git a/src/progress.rs b/src/progress.rs
index 6ecd7a2..feaaae9 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read, Write},
+    io::{self, Read, Seek, SeekFrom, Write},
     sync::{
         Arc,
         atomic::{AtomicBool, AtomicU64, Ordering},
@@ -41,6 +41,12 @@ impl<R: Read> Read for AtomicCountRead<'_, R> {
     }
 }
 
+impl<R: Seek> Seek for AtomicCountRead<'_, R> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.inner.seek(pos)
+    }
+}
+
 pub struct AtomicCountWrite<'a, W> {
     inner: W,
     count: &'a AtomicU64,
-- 
2.43.0


From fd658b6842100e202bd54c96912c43aee8a7ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:00 +0000
Subject: [PATCH 33/49] fix: get a new upload URL once one doesn't work

B2's upload URLs expire and get busy; trying the same one again forever got us nowhere.
---
 b2/src/lib.rs | 71 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index d1e785d..de70bac 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -6,6 +6,7 @@ use serde_json as json;
 use thiserror::Error;
 
 use std::io::{prelude::*, Cursor};
+use std::sync::Mutex;
 
 #[derive(Error, Debug)]
 pub enum Error {
@@ -17,6 +18,8 @@ pub enum Error {
     UnexpectedResponse { why: String, response: String },
     #[error("B2: Couldn't find {what}")]
     NotFound { what: String },
+    #[error("B2: Upload URL expired")]
+    UploadUrlExpired,
 }
 
 impl From<ureq::Error> for Error {
@@ -38,12 +41,39 @@ pub type Result<T> = std::result::Result<T, Error>;
 pub struct Session {
     token: String,
     url: String,
-    upload_url: String,
-    upload_token: String,
+    upload_url: Mutex<Option<UploadUrl>>,
     bucket_name: String,
     bucket_id: String,
 }
 
+/// B2 tells us where we can upload, until it changes its mind.
+#[derive(Debug)]
+struct UploadUrl {
+    url: String,
+    token: String,
+}
+
+fn get_upload_url(url: &str, token: &str, bucket_id: &str) -> Result<UploadUrl> {
+    let ur: json::Value = ureq::get(&(url.to_owned() + "/b2api/v2/b2_get_upload_url"))
+        .header("Authorization", token)
+        .query("bucketId", bucket_id)
+        .call()?
+        .body_mut()
+        .read_json()?;
+
+    let url = ur["uploadUrl"]
+        .as_str()
+        .ok_or_else(|| unexpected("couldn't get bucket upload URL", &ur))?
+        .to_owned();
+
+    let token = ur["authorizationToken"]
+        .as_str()
+        .ok_or_else(|| unexpected("couldn't get bucket upload token", &ur))?
+        .to_owned();
+
+    Ok(UploadUrl { url, token })
+}
+
 // Once we authenticate in Session::new,
 // we shouldn't have any redirects as the API gives us URLs to use.
 fn noredir() -> ureq::Agent {
@@ -139,28 +169,12 @@ impl Session {
             None => return Err(Error::NotFound { what: bucket }),
         };
 
-        let ur: json::Value = ureq::get(&(url.clone() + "/b2api/v2/b2_get_upload_url"))
-            .header("Authorization", &token)
-            .query("bucketId", &bucket_id)
-            .call()?
-            .body_mut()
-            .read_json()?;
-
-        let upload_url = ur["uploadUrl"]
-            .as_str()
-            .ok_or_else(|| unexpected("couldn't get bucket upload URL", &ur))?
-            .to_owned();
-
-        let upload_token = ur["authorizationToken"]
-            .as_str()
-            .ok_or_else(|| unexpected("couldn't get bucket upload token", &ur))?
-            .to_owned();
+        let upload_url = Mutex::new(Some(get_upload_url(&url, &token, &bucket_id)?));
 
         Ok(Session {
             token,
             url,
             upload_url,
-            upload_token,
             bucket_name: bucket,
             bucket_id,
         })
@@ -266,17 +280,30 @@ impl Session {
             }
         }
 
+        // Each URL is good for one upload at a time, until one fails.
+        // In that case - or if somebody else is using it - get another.
+        let ours = self.upload_url.lock().unwrap().take();
+        let to = match ours {
+            Some(u) => u,
+            None => get_upload_url(&self.url, &self.token, &self.bucket_id)?,
+        };
+
         let mut hr = HashAppendingReader::new(contents);
 
         noredir()
-            .post(&self.upload_url)
-            .header("Authorization", &self.upload_token)
+            .post(&to.url)
+            .header("Authorization", &to.token)
             .header("Content-Length", &(len + 40).to_string()) // SHA1 is 40 hex digits long.
             .header("X-Bz-File-Name", name) // No need to URL-encode, our names are boring
             .header("Content-Type", "b2/x-auto") // Go ahead and guess
             .header("X-Bz-Content-Sha1", "hex_digits_at_end")
-            .send(ureq::SendBody::from_reader(&mut hr))?;
+            .send(ureq::SendBody::from_reader(&mut hr))
+            .map_err(|e| match e {
+                ureq::Error::StatusCode(401) => Error::UploadUrlExpired,
+                e => e.into(),
+            })?;
 
+        *self.upload_url.lock().unwrap() = Some(to);
         Ok(())
     }
 
-- 
2.43.0


From 9ed7f709e5897e2f6972d536fd592b5e29fc6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:06 +0000
Subject: [PATCH 34/49] fix: don't retry what B2 refuses

Asking for an object that isn't there, or that we're not allowed to see, went on forever.
---
 b2/src/lib.rs            | 18 ++++++++++++++++++
 src/backend/backblaze.rs |  4 +---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index de70bac..c434b91 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -28,6 +28,24 @@ impl From<ureq::Error> for Error {
     }
 }
 
+impl Error {
+    /// Is there any point in trying again?
+    pub fn is_permanent(&self) -> bool {
+        match self {
+            // Assume IO errors are issues with our machine that won't resolve quickly,
+            Error::Io(_) | Error::NotFound { .. } => true,
+            // that we asked for something we can't have,
+            Error::Http(e) => match **e {
+                ureq::Error::StatusCode(408 | 429) => false,
+                ureq::Error::StatusCode(c) => c < 500,
+                _ => false,
+            },
+            // and everything else to be server-side, temporary sadness.
+            Error::UnexpectedResponse { .. } | Error::UploadUrlExpired => false,
+        }
+    }
+}
+
 fn unexpected(w: &str, r: &json::Value) -> Error {
     Error::UnexpectedResponse {
         why: w.to_string(),
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 409f366..386cfaa 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -53,9 +53,7 @@ fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
         match f() {
             Ok(k) => return Ok(k),
             Err(e) => {
-                // Assume IO errors are issues with our machine that won't resolve quickly,
-                // and everything else to be server-side, temporary sadness.
-                if matches!(e, b2::Error::Io(_)) {
+                if e.is_permanent() {
                     return Err(e);
                 } else {
                     warn!("{e}, retrying");
-- 
2.43.0


From 916ad09ddc68ef10bd31f6a245f480e45d091951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 35/49] fix: delete objects from B2 however many versions there
 are

Retrying an upload whose answer got lost makes a second one, and retrying a delete whose answer
got lost finds none. Both kept us trying forever.
---
 b2/src/lib.rs            | 67 ++++++++++++++++++++++++----------------
 src/backend/backblaze.rs | 10 +++++-
 2 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index c434b91..3e7b543 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -326,37 +326,50 @@ impl Session {
     }
 
     pub fn delete(&self, name: &str) -> Result<()> {
-        let req = noredir()
-            .get(&(self.url.clone() + "/b2api/v2/b2_list_file_versions"))
-            .header("Authorization", &self.token)
-            .query("bucketId", &self.bucket_id)
-            .query("prefix", name);
+        let mut found = false;
+        loop {
+            let req = noredir()
+                .get(&(self.url.clone() + "/b2api/v2/b2_list_file_versions"))
+                .header("Authorization", &self.token)
+                .query("bucketId", &self.bucket_id)
+                .query("prefix", name);
 
-        let lfv = req.call()?.body_mut().read_json()?;
-        let where_name = || unexpected(&format!("couldn't find {name}"), &lfv);
+            let lfv: json::Value = req.call()?.body_mut().read_json()?;
 
-        let versions = lfv["files"].as_array().ok_or_else(where_name)?;
+            let versions = lfv["files"]
+                .as_array()
+                .ok_or_else(|| unexpected("didn't list file versions", &lfv))?;
 
-        if versions.is_empty() {
-            return Err(where_name());
-        }
-        if versions.len() != 1 {
-            return Err(unexpected(
-                &format!("found multiple versions of {name}"),
-                &lfv,
-            ));
-        }
-        let id = versions[0]["fileId"]
-            .as_str()
-            .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+            // There can be several if an upload seemed to fail, but didn't.
+            for version in versions
+                .iter()
+                .filter(|v| v["fileName"].as_str() == Some(name))
+            {
+                found = true;
+                let id = version["fileId"]
+                    .as_str()
+                    .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+
+                ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
+                    .header("Authorization", &self.token)
+                    .send_json(json::json!({
+                        "fileName": name,
+                        "fileId": id
+                    }))?;
+            }
 
-        ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
-            .header("Authorization", &self.token)
-            .send_json(json::json!({
-                "fileName": name,
-                "fileId": id
-            }))?;
+            // ...so many that we only saw some?
+            if lfv["nextFileName"].as_str() != Some(name) {
+                break;
+            }
+        }
 
-        Ok(())
+        if found {
+            Ok(())
+        } else {
+            Err(Error::NotFound {
+                what: name.to_owned(),
+            })
+        }
     }
 }
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 386cfaa..cc8fea4 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -80,7 +80,15 @@ impl Backend for BackblazeBackend {
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        retry(|| self.session.delete(which))?;
+        let mut tried = false;
+        retry(|| match self.session.delete(which) {
+            // A previous try could have worked, even if we didn't hear back.
+            Err(b2::Error::NotFound { .. }) if tried => Ok(()),
+            res => {
+                tried = true;
+                res
+            }
+        })?;
         Ok(())
     }
 
-- 
2.43.0


From 6c61c3879e8d6845112a15a999c50578246ed774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 36/49] fix: hold the semaphore until a download is done

The backend's read() gave its place away as soon as the response's headers were there,
so more connections than allowed could be open while bodies were downloaded.
---
 src/backend/semaphored.rs | 33 +++++++++++++++++++++++++--------
 src/semaphored.rs         | 19 ++++++++++++-------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index 8849d32..8acc463 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -1,40 +1,57 @@
 use super::*;
 use crate::semaphored;
 
-use std::sync::atomic::AtomicU32;
+use std::{
+    io,
+    sync::{Arc, atomic::AtomicU32},
+};
 
 pub struct Semaphored<B> {
     inner: B,
-    count: AtomicU32,
+    count: Arc<AtomicU32>,
+}
+
+/// A reader that holds on to its connection (and thus the semaphore) until it's dropped.
+struct SemaphoredReader {
+    inner: Box<dyn Read + Send + 'static>,
+    _sem: semaphored::SemaphoreGuard<Arc<AtomicU32>>,
+}
+
+impl Read for SemaphoredReader {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf)
+    }
 }
 
 impl<B: Backend> Semaphored<B> {
     pub fn new(inner: B, concurrency: u32) -> Self {
         Self {
             inner,
-            count: AtomicU32::new(concurrency),
+            count: Arc::new(AtomicU32::new(concurrency)),
         }
     }
 }
 
 impl<B: Backend> Backend for Semaphored<B> {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>> {
-        let _sem = semaphored::dec(&self.count);
-        self.inner.read(from)
+        // There's more to come once we have a reader.
+        let _sem = semaphored::dec(self.count.clone());
+        let inner = self.inner.read(from)?;
+        Ok(Box::new(SemaphoredReader { inner, _sem }))
     }
 
     fn write(&self, len: u64, from: &mut dyn Upload, to: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.remove(which)
     }
 
     fn list(&self, prefix: &str) -> Result<Vec<(String, u64)>> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.list(prefix)
     }
 }
diff --git a/src/semaphored.rs b/src/semaphored.rs
index 0ff4ae9..d4465f0 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -7,16 +7,21 @@
 //! We also might want to limit the number of concurrent filesystem threads
 //! done with [`concurrently`](super::concurrently)
 
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::{
+    ops::Deref,
+    sync::atomic::{AtomicU32, Ordering},
+};
 
 use atomic_wait::*; // <3 Mara
 
 /// lmao how does the stdlib not have counting semaphores
-pub struct SemaphoreGuard<'a> {
-    count: &'a AtomicU32,
+///
+/// `C` is a `&AtomicU32`, or an `Arc` of one when the guard needs to outlive its surroundings.
+pub struct SemaphoreGuard<C: Deref<Target = AtomicU32>> {
+    count: C,
 }
 
-pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
+pub fn dec<C: Deref<Target = AtomicU32>>(count: C) -> SemaphoreGuard<C> {
     // Sanity check:
     // https://www.remlab.net/op/futex-misc.shtml
 
@@ -31,7 +36,7 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
             Err(actual) => {
                 if actual == 0 {
                     // I sleep
-                    wait(count, 0);
+                    wait(&*count, 0);
                     // We're back, so at least one thread posted the semaphore
                     // (by dropping the guard) and we've got a positive count again.
                     // Assume only one thread did - if several beat us here, no worries,
@@ -49,13 +54,13 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
     SemaphoreGuard { count }
 }
 
-impl Drop for SemaphoreGuard<'_> {
+impl<C: Deref<Target = AtomicU32>> Drop for SemaphoreGuard<C> {
     fn drop(&mut self) {
         self.count.fetch_add(1, Ordering::Release);
         // real shit
         // NB: Always wake someone, even if the count was already positive.
         // If two guards are dropped before the first thread they woke gets going,
         // the second must still wake another waiter (if there is one).
-        wake_one(self.count);
+        wake_one(&*self.count);
     }
 }
-- 
2.43.0


From 9d5875e7af253c9949b41434d5efee406ea76e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:26 +0000
Subject: [PATCH 37/49] fix: a snapshot whose time zone isn't known here made
 the whole repository unreadable

---
 src/snapshot.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index bc1456b..0e4ea01 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -77,7 +77,28 @@ where
     as_str
         .parse()
         .or_else(|_e| Zoned::strptime("%FT%H:%M:%S%.f%:Q", &as_str))
-        .map_err(serde::de::Error::custom)
+        .or_else(|e| {
+            // Its time zone might not be known here, but the instant is.
+            let instant: Timestamp = as_str.parse().map_err(|_| e)?;
+            Ok(instant.to_zoned(TimeZone::unknown()))
+        })
+        .map_err(|e: jiff::Error| serde::de::Error::custom(e))
+}
+
+// The time zone is informative. Not knowing it (say, on a rescue system without a time zone
+// database) shouldn't keep anyone from reading the snapshot.
+fn deserialize_tz<'de, D>(d: D) -> Result<TimeZone, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    use serde::Deserialize;
+
+    let as_str = String::deserialize(d)?;
+    let parser = jiff::fmt::temporal::DateTimeParser::new();
+    Ok(parser.parse_time_zone(&as_str).unwrap_or_else(|e| {
+        tracing::debug!("Unknown time zone {as_str}: {e}");
+        TimeZone::unknown()
+    }))
 }
 
 pub fn strftime(z: &Zoned) -> impl std::fmt::Display {
@@ -92,7 +113,8 @@ struct SnapshotV2 {
     #[serde(with = "jiff::fmt::serde::timestamp::nanosecond::required")]
     pub time: Timestamp,
     /// Time zone string, or offset if we don't have it by name.
-    #[serde(with = "jiff::fmt::serde::tz::required")]
+    #[serde(serialize_with = "jiff::fmt::serde::tz::required::serialize")]
+    #[serde(deserialize_with = "deserialize_tz")]
     pub tz: TimeZone,
 
     // Same as above
-- 
2.43.0


From 658babf2fab130d3d4fa366f9e1f53e3e8220b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:41 +0000
Subject: [PATCH 38/49] fix: backup failed where the local time zone has no
 name

---
 src/snapshot.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0e4ea01..2a7a6ec 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -129,9 +129,16 @@ struct SnapshotV2 {
 }
 
 fn diskfmt(s: &Snapshot) -> SnapshotV2 {
+    // A time zone might not have a name (if /etc/localtime is a copy, for example).
+    let mut tz = s.time.time_zone().clone();
+    let printer = jiff::fmt::temporal::DateTimePrinter::new();
+    if printer.time_zone_to_string(&tz).is_err() {
+        tz = s.time.offset().to_time_zone();
+    }
+
     SnapshotV2 {
         time: s.time.timestamp(),
-        tz: s.time.time_zone().clone(),
+        tz,
         author: s.author.clone(),
         tags: s.tags.clone(),
         paths: s.paths.clone(),
-- 
2.43.0


From 8609b74d5f703be4bbf9d369a63e240d1026c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:18 +0000
Subject: [PATCH 39/49] fix: refuse to back up / instead of panicking

---
 src/ui/backup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9bd24c3..36c2160 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -329,7 +329,9 @@ fn reject_matching_directories(paths: &BTreeSet<Utf8PathBuf>) -> Result<()> {
     let mut dirnames: FxHashSet<&str> =
         FxHashSet::with_capacity_and_hasher(paths.len(), Default::default());
     for path in paths {
-        let dirname = path.file_name().expect("empty path");
+        let dirname = path
+            .file_name()
+            .with_context(|| format!("Can't back up {path}, it has no name"))?;
         if !dirnames.insert(dirname) {
             bail!(
                 "Backups of directories with matching names ({dirname}/) isn't currently supported",
-- 
2.43.0


From 94736e29ea13d1c287eb60e9ae05dff12e2e2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:18 +0000
Subject: [PATCH 40/49] fix: report unrepresentable file times instead of
 panicking

---
 src/tree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index e5405a1..6059230 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,8 +238,10 @@ pub fn get_metadata(symlink_behavior: Symlink, path: &Utf8Path) -> Result<NodeMe
     let size = (posix_kind(mode) == NodeType::File).then(|| meta.size());
     let user_id = meta.uid();
     let group_id = meta.gid();
-    let access_time = Timestamp::new(meta.atime(), meta.atime_nsec() as i32).unwrap();
-    let modify_time = Timestamp::new(meta.mtime(), meta.mtime_nsec() as i32).unwrap();
+    let access_time = Timestamp::new(meta.atime(), meta.atime_nsec() as i32)
+        .with_context(|| format!("{path} has an unrepresentable access time"))?;
+    let modify_time = Timestamp::new(meta.mtime(), meta.mtime_nsec() as i32)
+        .with_context(|| format!("{path} has an unrepresentable modification time"))?;
 
     Ok(NodeMetadata::Posix(PosixMetadata {
         mode,
-- 
2.43.0


From 082ee04939066261d8c8e65fafae437b9a41c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 41/49] fix: -C changes directory before looking for
 configuration, and reports failure

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 13d59ad..27762b9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{Context, Result};
 use camino::Utf8PathBuf;
 use clap::{ArgAction, Parser, Subcommand};
 use tracing::*;
@@ -79,11 +79,13 @@ fn run() -> Result<()> {
         _ => LogMode::InfoStdout,
     };
     init_logger(&args, logmode);
-    let conf = config::load(args.config)?;
 
+    // Before anything else, including looking for configuration in the working directory.
     if let Some(dir) = &args.working_directory {
-        std::env::set_current_dir(dir).expect("Couldn't change working directory");
+        std::env::set_current_dir(dir)
+            .with_context(|| format!("Couldn't change working directory to {dir}"))?;
     }
+    let conf = config::load(args.config)?;
 
     match args.subcommand {
         Command::Init(i) => init::run(&args.repository, i),
-- 
2.43.0


From f55a538f33800f10c8d0cd1d6cd2b1c567a589d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 42/49] fix: refuse to restore over / instead of panicking

---
 src/ui/restore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index c4f9e09..5495831 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -180,6 +180,9 @@ fn load_fs_tree_and_mapping<'a>(
             let canonical_to = to
                 .canonicalize_utf8()
                 .with_context(|| format!("Couldn't canonicalize {to}"))?;
+            let to_name = canonical_to.file_name().with_context(|| {
+                format!("Can't restore {last_dir} as {canonical_to}, it has no name")
+            })?;
 
             let (fs_id, mut fs_forest) = fs_tree::forest_from_fs(
                 // NB: We do *NOT* want to dereference symbolic links when we're
@@ -222,7 +225,7 @@ fn load_fs_tree_and_mapping<'a>(
             // so it matches the snapshot.
             let mut fixed_top: Tree = (*fs_top).clone();
             let node = fixed_top
-                .remove(Utf8Path::new(canonical_to.file_name().unwrap()))
+                .remove(Utf8Path::new(to_name))
                 .unwrap();
             fixed_top.insert(last_dir.into(), node);
             // Put that into the forest and return its ID as the new top-level tree.
-- 
2.43.0


From cb5b64e009777ddbaa20619a1a8eaeb20c52a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 43/49] fix: report the usage of a repository with a blank
 filter instead of panicking

---
 src/ui/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index f68dd2e..c5df1f3 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -83,7 +83,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         backend::Kind::Backblaze { .. } => "Backblaze",
     };
     let filter_str = if let Some((f, _)) = &backend_config.filter {
-        let fname = f.split_whitespace().next().expect("empty filter");
+        let fname = f.split_whitespace().next().unwrap_or("an empty filter");
         " and ".to_owned() + fname
     } else {
         String::new()
-- 
2.43.0


From 5fcee746ef8fc69725c72f3d39700d1de24d5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:17 +0000
Subject: [PATCH 44/49] fix: don't back up our own temporary files from the
 working directory

---
 src/backup.rs    |  2 ++
 src/index.rs     |  2 +-
 src/pack.rs      |  2 +-
 src/snapshot.rs  |  2 +-
 src/ui/backup.rs |  4 +++-
 src/upload.rs    | 34 +++++++++++++++++++++++++++++++++-
 6 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 8375a83..791810a 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -355,6 +355,8 @@ fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
         if let Ok(id) = ObjectId::from_str(name_tokens[0]) {
             if index.packs.contains_key(&id) {
                 trace!("Found {} in the WIP index", entry.file_name());
+                // It's about to be uploaded and removed.
+                upload::mark_own_file(entry.file_name());
                 packfiles.push(id);
             } else {
                 warn!(
diff --git a/src/index.rs b/src/index.rs
index 9051520..79bb3d6 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -181,7 +181,7 @@ fn to_temp_file(index: &Index) -> Result<(ObjectId, NamedTempFile)> {
     // _and_ we'd be assuming that the file grows larger each time.
     // (This _might_ not be true since its contents are compressed...)
     let mut tf = tempfile::Builder::new()
-        .prefix("temp-backpak-")
+        .prefix(upload::TEMP_PREFIX)
         .suffix(".index")
         .tempfile_in(".")
         .context("Couldn't open temporary index for writing")?;
diff --git a/src/pack.rs b/src/pack.rs
index 41d0745..f8330c2 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -230,7 +230,7 @@ struct PackfileWriter<'a> {
 impl<'a> PackfileWriter<'a> {
     fn new(byte_count: &'a AtomicU64) -> Result<Self> {
         let mut fh = tempfile::Builder::new()
-            .prefix("temp-backpak-")
+            .prefix(upload::TEMP_PREFIX)
             .suffix(".pack")
             .tempfile_in(".")
             .context("Couldn't open temporary packfile for writing")?;
diff --git a/src/snapshot.rs b/src/snapshot.rs
index 2a7a6ec..11ceaa5 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -175,7 +175,7 @@ fn to_file(fh: &mut fs::File, snapshot: &Snapshot) -> Result<ObjectId> {
 /// Upload a snapshot, finishing a backup.
 pub fn upload(snapshot: &Snapshot, backend: &backend::CachedBackend) -> Result<ObjectId> {
     let mut fh = tempfile::Builder::new()
-        .prefix("temp-backpak-")
+        .prefix(crate::upload::TEMP_PREFIX)
         .suffix(".snapshot")
         .tempfile_in(".") // TODO: Configurable?
         .context("Couldn't open temporary snapshot for writing")?;
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 36c2160..dbf1c59 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -25,6 +25,7 @@ use crate::progress::{ProgressThread, print_backup_lines, print_download_line, t
 use crate::rcu::Rcu;
 use crate::snapshot::{self, Snapshot};
 use crate::tree;
+use crate::upload;
 
 /// Create a snapshot of the given files and directories.
 #[derive(Debug, Parser)]
@@ -407,7 +408,8 @@ fn backup_tree(
 
     let mf = filter::skip_matching_paths(skips)?;
     let mut filter = move |path: &Utf8Path| {
-        let res = mf(path);
+        // (We might be running from some directory we're backing up.)
+        let res = mf(path) && !upload::is_own_file(path);
         if !res {
             debug!("{:>9} {}", "skip", path);
         }
diff --git a/src/upload.rs b/src/upload.rs
index 4307bb2..a03d8ce 100644
--- a/src/upload.rs
+++ b/src/upload.rs
@@ -1,13 +1,44 @@
 //! [uploads](upload) files ([packs](crate::pack), [indexes](crate::index),
 //! [snapshots](crate::snapshot)) to a [backend]
 
+use std::collections::BTreeSet;
 use std::fs::File;
-use std::sync::mpsc::Receiver;
+use std::sync::{Mutex, mpsc::Receiver};
 
 use anyhow::{Context, Result};
+use camino::Utf8Path;
 use tempfile::NamedTempFile;
 
 use crate::backend;
+use crate::index;
+
+/// The prefix of all temporary files we make in the working directory
+pub const TEMP_PREFIX: &str = "temp-backpak-";
+
+/// Names of finished files which are (or were) in the working directory, waiting to be uploaded.
+static FINISHED: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
+
+/// Remember that the given file in the working directory is ours.
+pub fn mark_own_file(name: &str) {
+    FINISHED.lock().unwrap().insert(name.to_owned());
+}
+
+/// Is the given path one of our own files in the working directory?
+///
+/// They come and go as we run, so if we find ourselves backing up the working directory,
+/// they shouldn't be part of it.
+pub fn is_own_file(path: &Utf8Path) -> bool {
+    let Some(name) = path.file_name() else {
+        return false;
+    };
+    let ours = name.starts_with(TEMP_PREFIX)
+        || name == index::WIP_NAME
+        || FINISHED.lock().unwrap().contains(name);
+    ours && match (path.parent().map(Utf8Path::canonicalize), std::env::current_dir()) {
+        (Some(Ok(dir)), Ok(cwd)) => dir == cwd,
+        _ => false,
+    }
+}
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Mode {
@@ -23,6 +54,7 @@ pub enum Mode {
 pub fn name_finished(mode: Mode, tf: NamedTempFile, name: String) -> Result<(String, File)> {
     match mode {
         Mode::LiveFire => {
+            mark_own_file(&name);
             let fh = tf
                 .persist(&name)
                 .with_context(|| format!("Couldn't persist finished file to {name}"))?;
-- 
2.43.0


From b6fb14efd650f8e932f232b4e60b06d606c9caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 45/49] fix: don't panic when restoring to a special file

---
 src/ui/restore.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 5495831..6daf678 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -224,10 +224,10 @@ fn load_fs_tree_and_mapping<'a>(
             // Make a copy, replacing { "you" -> subtree } with { "me" -> subtree }
             // so it matches the snapshot.
             let mut fixed_top: Tree = (*fs_top).clone();
-            let node = fixed_top
-                .remove(Utf8Path::new(to_name))
-                .unwrap();
-            fixed_top.insert(last_dir.into(), node);
+            // (If it's a special file, we skipped it. It'll be in our way later.)
+            if let Some(node) = fixed_top.remove(Utf8Path::new(to_name)) {
+                fixed_top.insert(last_dir.into(), node);
+            }
             // Put that into the forest and return its ID as the new top-level tree.
             let (_bytes, fixed_id) = tree::serialize_and_hash(&fixed_top)?;
             fs_forest.insert(fixed_id, Arc::new(fixed_top));
-- 
2.43.0


From b91d526973aa22b4c92474750fd66edebe2404b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:17 +0000
Subject: [PATCH 46/49] fix: don't panic when progress can't be printed

A backup, copy, or check whose stdout was a closed pipe or on a full disk
died halfway. The progress thread means to warn, so return the error to it.
---
 src/progress.rs  | 12 +++++++-----
 src/repack/ui.rs |  9 +++++----
 src/ui/backup.rs | 14 ++++++++------
 src/ui/check.rs  |  5 +++--
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/progress.rs b/src/progress.rs
index feaaae9..2646b8f 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -168,21 +168,22 @@ pub fn print_backup_lines(
     bstats: &backup::BackupStatistics,
     reused_bytes: u64,
     uploaded_bytes: u64,
-) {
+) -> Result<()> {
     let spin = spinner(i);
     let cb = nice_size(bstats.chunk_bytes.load(Ordering::Relaxed));
     let tb = nice_size(bstats.tree_bytes.load(Ordering::Relaxed));
     let rb = nice_size(reused_bytes);
     let cz = nice_size(bstats.compressed_bytes.load(Ordering::Relaxed));
     let ub = nice_size(uploaded_bytes);
-    println!("{spin} P {cb} + {tb} | R {rb} | Z {cz} | U {ub}");
+    writeln!(io::stdout(), "{spin} P {cb} + {tb} | R {rb} | Z {cz} | U {ub}")?;
 
     let idxd = bstats.indexed_packs.load(Ordering::Relaxed);
     let ispin = if idxd % 2 != 0 { 'i' } else { 'I' };
-    println!("{ispin} {idxd} packs indexed");
+    writeln!(io::stdout(), "{ispin} {idxd} packs indexed")?;
+    Ok(())
 }
 
-pub fn print_download_line(downloaded_bytes: u64) {
+pub fn print_download_line(downloaded_bytes: u64) -> Result<()> {
     let db = nice_size(downloaded_bytes);
     // Flip every 500K.
     // Better symbols? Trying to commit to ASCII art only.
@@ -191,7 +192,8 @@ pub fn print_download_line(downloaded_bytes: u64) {
     } else {
         'D'
     };
-    println!("{dspin} {db} downloaded");
+    writeln!(io::stdout(), "{dspin} {db} downloaded")?;
+    Ok(())
 }
 
 pub fn truncate_path(p: &Utf8Path, term: &Term) -> String {
diff --git a/src/repack/ui.rs b/src/repack/ui.rs
index 12d2bdf..468bb4a 100644
--- a/src/repack/ui.rs
+++ b/src/repack/ui.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::thread::Scope;
 
 use anyhow::Result;
@@ -47,15 +48,15 @@ fn print_progress(
 
     let rb = wstats.reused_bytes.load(Ordering::Relaxed);
     let ub = up.load(Ordering::Relaxed);
-    print_backup_lines(i, bstats, rb, ub);
+    print_backup_lines(i, bstats, rb, ub)?;
 
-    print_download_line(down.load(Ordering::Relaxed));
+    print_download_line(down.load(Ordering::Relaxed))?;
 
     let cs = wstats.current_snapshot.borrow();
-    println!("Snapshot: {cs}");
+    writeln!(io::stdout(), "Snapshot: {cs}")?;
 
     let cf = wstats.current_file.borrow();
     let cf = truncate_path(&cf, term);
-    println!("{cf}");
+    writeln!(io::stdout(), "{cf}")?;
     Ok(())
 }
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index dbf1c59..f315260 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 use std::collections::BTreeSet;
-use std::io;
+use std::io::{self, Write};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::thread;
 
@@ -276,7 +276,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         id
     };
 
-    println!("\nSnaphsot {} done", snap_id.short_name());
+    // Everything's stored; don't fail just because we can't say so.
+    writeln!(io::stdout(), "\nSnaphsot {} done", snap_id.short_name())
+        .unwrap_or_else(|e| warn!("Failed to print progress: {e:?}"));
     Ok(())
 }
 
@@ -286,7 +288,7 @@ fn print_path_check(i: usize, term: &Term, b: &AtomicU64) -> Result<()> {
     }
     let spin = crate::progress::spinner(i);
     let b = nice_size(b.load(Ordering::Relaxed));
-    println!("{spin} {b}");
+    writeln!(io::stdout(), "{spin} {b}")?;
     Ok(())
 }
 
@@ -311,14 +313,14 @@ fn print_progress(
 
     let rb = wstats.reused_bytes.load(Ordering::Relaxed);
     let ub = up.load(Ordering::Relaxed);
-    print_backup_lines(i, bstats, rb, ub);
+    print_backup_lines(i, bstats, rb, ub)?;
 
     let db = down.load(Ordering::Relaxed);
-    print_download_line(db);
+    print_download_line(db)?;
 
     let cf = wstats.current_file.borrow();
     let cf = truncate_path(&cf, term);
-    println!("{cf}");
+    writeln!(io::stdout(), "{cf}")?;
     Ok(())
 }
 
diff --git a/src/ui/check.rs b/src/ui/check.rs
index ad92826..196f8e8 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::thread;
 
@@ -237,9 +238,9 @@ fn print_progress(i: usize, term: &Term, stats: &ReadStatus, down: &AtomicU64) -
     let b = stats.blobs_read.load(Ordering::Relaxed);
     let tb = stats.blobs_total;
     let perc = b as f64 / tb as f64 * 100.0;
-    println!("{s} {p}/{tp} packs | {b}/{tb} blobs ({perc:.0}%)");
+    writeln!(io::stdout(), "{s} {p}/{tp} packs | {b}/{tb} blobs ({perc:.0}%)")?;
 
     let db = down.load(Ordering::Relaxed);
-    print_download_line(db);
+    print_download_line(db)?;
     Ok(())
 }
-- 
2.43.0


From 12f75b664d33db1d69e8f3a25872747c6c0b49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:42 +0000
Subject: [PATCH 47/49] fix: report output that can't be written instead of
 panicking

ls, snapshots, usage, diff, prune, and restore panicked when stdout
was a closed pipe or a file on a full disk.
---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e2a7995..4f7cad8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,15 @@ use rustc_hash::FxHashSet;
 use std::sync::{LazyLock, Mutex};
 use tracing::error;
 
+// std's versions panic if stdout is, say, a pipe to a `head` that's seen enough, or on a full disk.
+macro_rules! print {
+    ($($arg:tt)*) => { $crate::print_or_die(format_args!($($arg)*)) };
+}
+macro_rules! println {
+    () => { print!("\n") };
+    ($($arg:tt)*) => { print!("{}\n", format_args!($($arg)*)) };
+}
+
 pub mod backend;
 pub mod backup;
 pub mod blob;
@@ -71,6 +80,14 @@ impl Drop for ChildGuard {
     }
 }
 
+fn print_or_die(args: std::fmt::Arguments) {
+    use std::io::Write;
+
+    std::io::stdout()
+        .write_fmt(args)
+        .unwrap_or_else(|e| fatal(Error::new(e).context("Couldn't write to stdout")));
+}
+
 pub fn fatal(e: Error) -> ! {
     use rustix::process::{self, Pid, Signal};
 
-- 
2.43.0


From 8b8ad498bf1a3593abffe074e4409adf30eeb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:46 +0000
Subject: [PATCH 48/49] fix: cat reported success when its output couldn't be
 written

---
 src/ui/cat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ui/cat.rs b/src/ui/cat.rs
index 0083a41..879a869 100644
--- a/src/ui/cat.rs
+++ b/src/ui/cat.rs
@@ -103,5 +103,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
             serde_json::to_writer(io::stdout(), &snapshot)?;
         }
     }
+    // Otherwise whatever's still buffered is written on exit, where nobody checks if that worked.
+    io::stdout().flush()?;
     Ok(())
 }
-- 
2.43.0


From 959b695b2c46a346d9685a3aff33172b6c745f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:25 +0000
Subject: [PATCH 49/49] fix: backup panicked while reading a file with a name
 almost as wide as the terminal

(In builds with overflow checks.)
---
 src/progress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/progress.rs b/src/progress.rs
index 2646b8f..81549a0 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -209,7 +209,7 @@ pub fn truncate_path(p: &Utf8Path, term: &Term) -> String {
         // trim just the filename and print it.
         let back: Vec<_> = p.file_name().unwrap().graphemes(true).collect();
         if back.len() >= (w - 3) {
-            format!("...{}", back[back.len() - w + 3..].concat())
+            format!("...{}", back[back.len() + 3 - w..].concat())
         }
         // Otherwise try to get both the front and back of the file path.
         else {
-- 
2.43.0

