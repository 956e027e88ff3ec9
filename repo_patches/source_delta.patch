From e94287491ad9fdf30c74ee721a6d47d704dc5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 1/6] fix: release the slab entry of abandoned placeholders

remove_placeholder only removed the map entry, so every guard dropped
without inserting leaked a slot of the slab together with its key.
---
 src/shard.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..bbae92d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,7 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From d16a7a136fd98707c149306894915a78a079d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 2/6] fix: remove the placeholder when an unsync
 get_or_insert_with loader fails

get_or_insert_with and get_mut_or_insert_with left the placeholder (and its
key) in the cache forever if the closure returned an error or panicked.
---
 src/unsync.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..5f54f60 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -252,12 +252,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+                let idx = plh.idx;
+                // the guard removes the placeholder if `with` fails
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -278,12 +281,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+                let idx = plh.idx;
+                // the guard removes the placeholder if `with` fails
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From a493743c7054c1bac74ebe65777fa5bf79a31bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 3/6] fix: park for the remaining time in get_value_or_guard

The waiter parked for the time already elapsed instead of the time left,
spinning at first and then overshooting the timeout by up to 2x.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From 5b7b0acc58ac3fc25b03c3aca791df9618742ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 4/6] fix: count get_value_or_guard lookups once in the stats

The read-locked fast path recorded a miss and the slow path then recorded a
second miss (or a hit) for the very same call.
---
 src/shard.rs | 13 ++++++++++++-
 src/sync.rs  |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index bbae92d..9f38769 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -487,6 +487,18 @@ impl<
     }
 
     pub fn get<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
+    where
+        Q: Hash + Equivalent<Key> + ?Sized,
+    {
+        let value = self.get_if_present(hash, key);
+        if value.is_none() {
+            record_miss!(self);
+        }
+        value
+    }
+
+    /// Same as `get`, but leaves recording a miss to the caller.
+    pub fn get_if_present<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
     where
         Q: Hash + Equivalent<Key> + ?Sized,
     {
@@ -501,7 +513,6 @@ impl<
             record_hit!(self);
             Some(&resident.value)
         } else {
-            record_miss!(self);
             None
         }
     }
diff --git a/src/sync.rs b/src/sync.rs
index eb0e806..4c09f7a 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -358,7 +358,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_if_present(hash, key) {
             return GuardResult::Value(v.clone());
         }
         PlaceholderGuard::join(&self.lifecycle, shard, hash, key, timeout)
@@ -401,7 +401,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_if_present(hash, key) {
             return Ok(v.clone());
         }
         JoinFuture::new(&self.lifecycle, shard, hash, key).await
-- 
2.43.0


From 47ec7b5381a93fcfc42b5949b7c4330b957ba152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 5/6] fix: never let the hot target exceed the weight capacity

For capacities above 2^53 the conversion to f64 may round up, so with a hot
allocation of 1.0 an item heavier than the whole capacity was admitted.
---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9f38769..14639fd 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -225,7 +225,9 @@ impl<
         hash_builder: B,
         lifecycle: L,
     ) -> Self {
-        let weight_target_hot = (weight_capacity as f64 * hot_allocation) as u64;
+        // the f64 conversion may round up past the capacity for very large values
+        let weight_target_hot =
+            ((weight_capacity as f64 * hot_allocation) as u64).min(weight_capacity);
         let capacity_non_resident = (estimated_items_capacity as f64 * ghost_allocation) as usize;
         Self {
             hash_builder,
-- 
2.43.0


From 4ce41a4e1de595ffc202e382e4d88a4c16123217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:39 +0000
Subject: [PATCH 6/6] fix: a panicking clone in an async waiter must not abort
 the process

The future was dropped with its notification already consumed, so drop_pending_waiter
looked for it in the waiters list and panicked while unwinding.
---
 src/sync_placeholder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 8a291d3..abe0b0a 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -476,9 +476,9 @@ impl<
                 ..
             } => {
                 let mut waiter = waiter.write();
-                if waiter.notified {
-                    waiter.notified = false;
-                } else {
+                // Note: `notified` stays set, so that dropping the future doesn't look for it
+                // in the waiters list if the value's `clone` panics below.
+                if !waiter.notified {
                     waiter.waker.clone_from(cx.waker());
                     return Poll::Pending;
                 }
-- 
2.43.0

