From c12fa9c2c180b024a9dff78af3bda14b799f305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 01/35] fix: indexing an empty corpus

---
 hyperreal/index.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..ce76e98 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -397,20 +397,20 @@ class Index:
                         for f in done:
                             f.result()
 
-            # Dispatch the final batch.
-            if batch_doc_keys:
-                self.logger.debug("Dispatching final batch for indexing.")
-                futures.add(
-                    self.pool.submit(
-                        _index_docs,
-                        self.corpus,
-                        batch_doc_ids,
-                        batch_doc_keys,
-                        temp_index,
-                        index_positions,
-                        write_lock,
-                    )
+            # Dispatch the final batch. This is dispatched even if it is empty,
+            # so that the temporary index always exists for the merge step.
+            self.logger.debug("Dispatching final batch for indexing.")
+            futures.add(
+                self.pool.submit(
+                    _index_docs,
+                    self.corpus,
+                    batch_doc_ids,
+                    batch_doc_keys,
+                    temp_index,
+                    index_positions,
+                    write_lock,
                 )
+            )
 
             self.logger.info("Waiting for batches to complete.")
 
@@ -2081,8 +2081,9 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
 
         docs = corpus.docs(doc_keys=doc_keys)
 
-        first_doc_id = doc_ids[0]
-        last_doc_id = doc_ids[-1]
+        # The final batch is empty when there are no (more) documents to index.
+        first_doc_id = doc_ids[0] if doc_ids else None
+        last_doc_id = doc_ids[-1] if doc_ids else None
 
         for doc_id, (_, doc) in zip(doc_ids, docs):
             features = corpus.index(doc)
-- 
2.43.0


From dbc4efd7cd556a61c6f413bbd2250ed216c62035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 02/35] fix: accept a path as the working_dir of index()

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index ce76e98..d6e5157 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -345,7 +345,9 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            # Always work in a new directory, so nothing left over in working_dir
+            # by an earlier run can be picked up by this one.
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From 82cc5dca060cf7ad382d148a3d41641f0444e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/35] fix: leave features without documents out of the field
 summary

---
 hyperreal/_index_schema.py | 2 ++
 hyperreal/index.py         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..b50177f 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -213,6 +213,8 @@ migrations = {
                     0
                 )
             from inverted_index ii
+            -- Features that no longer occur keep their id, but aren't present.
+            where docs_count > 0
             group by field
             """,
         ],
diff --git a/hyperreal/index.py b/hyperreal/index.py
index d6e5157..5629b1d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -526,6 +526,8 @@ class Index:
                         0
                     )
                 from inverted_index ii
+                -- Features that no longer occur keep their id, but aren't present.
+                where docs_count > 0
                 group by field
                 """
             )
-- 
2.43.0


From b5c5ab8a1fc4868ed58c4dc629201e0d38945d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/35] fix: keep position windows within their document

---
 hyperreal/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..7e91126 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,8 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        # (the end of the range is exclusive, as is next_start)
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 06032937cc073a710174ae2c656eb48ece0aa87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 05/35] fix: report the last passage of a batch when it is a
 single position

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 5629b1d..f5b4d4f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2519,16 +2519,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, it's never closed off in the loop.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From 240610f36a1c2a48ded281d5a08e42529fbfebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 06/35] fix: only count collocations within the requested field

---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f5b4d4f..85f2553 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2553,8 +2553,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where (field, first_doc_id) = (?, ?)
+            """,
+            [field, first_doc_id],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From e0265898395aecde8fdb3c57d9b1e937e2ee8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 07/35] fix: include the last token of the passage when
 constructing passages

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 85f2553..debecea 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2587,7 +2587,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From 0dc271560dc7a8f220eeba652efc4921f6defaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 08/35] fix: keep all new clusters when their temporary ids
 overlap the assigned ids

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index debecea..006917c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1740,10 +1740,12 @@ class Index:
             cluster_id: cluster_feature[cluster_id] for cluster_id in new_cluster_ids
         }
 
+        for cluster_id in new_cluster_ids:
+            del cluster_feature[cluster_id]
+
         next_cluster_id = self.next_cluster_id()
 
         for cluster_id in new_cluster_ids:
-            del cluster_feature[cluster_id]
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From 9589f5772806e5508a9f9b63897947f9643a39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 09/35] fix: refining a model where every feature is pinned

---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 006917c..a222a43 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1516,6 +1516,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # Or there's nothing that can be moved, because everything is pinned.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From 80750941d52b90d883331f035bc859e7d44f8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 10/35] fix: score every cluster when group testing, so any can
 be dissolved

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index a222a43..61d3ed3 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1400,7 +1400,9 @@ class Index:
                 top_k=group_test_top_k,
             )
 
-            cluster_feature_checks = collections.defaultdict(set)
+            # Make sure that every cluster is scored against its own features,
+            # even if it isn't in the best group for any feature.
+            cluster_feature_checks = {c: set() for c in cluster_ids}
 
             # Convert best group results into individual cluster checks
             for feature, groups in best_groups.items():
-- 
2.43.0


From d2bbbed544241c6b98cca35b5e69d6aa9d86f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 11/35] fix: refining to a target smaller than the number of
 pinned clusters

---
 hyperreal/index.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 61d3ed3..945a278 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1552,7 +1552,12 @@ class Index:
         assigned_cluster_ids = set(cluster_feature)
 
         # Work out how many low objective clusters to dissolve on each iteration.
-        dissolve_clusters = max(0, len(assigned_cluster_ids) - target_clusters)
+        # Clusters with pinned features can't be dissolved.
+        dissolve_clusters = max(
+            0,
+            len(assigned_cluster_ids)
+            - max(target_clusters, len(clusters_with_pinned_features)),
+        )
         # Note that we try to structure it so the very last iteration does not dissolve
         # anything.
         dissolve_per_iteration = math.ceil(dissolve_clusters / max(1, iterations - 1))
@@ -1723,6 +1728,10 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The remaining features have to go somewhere, even if there are already
+        # more pinned clusters than the target.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From d3bd11d308996ce308ddf1cefe40b6ba72c7f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 12/35] fix: reach the target number of clusters when splitting

---
 hyperreal/index.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 945a278..387ce2e 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1535,15 +1535,23 @@ class Index:
         new_cluster_ids = list(range(next_cluster_id, next_cluster_id + new_clusters))
 
         for new_cluster_id in new_cluster_ids:
-            _, largest_cluster, largest_cluster_features = max(
-                (len(features), cluster_id, features)
+            # Only consider clusters where a feature can leave and another stays.
+            splittable = [
+                (len(features), cluster_id)
                 for cluster_id, features in cluster_feature.items()
+                if len(features) > 1 and features - pinned_features
+            ]
+
+            if not splittable:
+                new_cluster_ids = [c for c in new_cluster_ids if c in cluster_feature]
+                break
+
+            _, largest_cluster = max(splittable)
+            candidates = sorted(cluster_feature[largest_cluster] - pinned_features)
+            # Neither side of the split can be left empty.
+            split = set(
+                self.random.sample(candidates, max(1, len(candidates) // 2))
             )
-            split = {
-                feature
-                for feature in largest_cluster_features
-                if self.random.random() < 0.5 and feature not in pinned_features
-            }
             cluster_feature[new_cluster_id] = split
             cluster_feature[largest_cluster] -= split
             for feature_id in split:
-- 
2.43.0


From e9e2b4e1d4d749a8522386b68cb1d3f914f8ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 13/35] fix: make samples of passages reproducible with a
 random seed

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 387ce2e..35895e2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -764,7 +764,9 @@ class Index:
         if random_sample_size is not None:
             keep_keys = heapq.nlargest(
                 random_sample_size,
-                ((self.random.random(), doc_id) for doc_id in scored_passages.keys()),
+                # in sorted order for reproducibility, as the order of the passages
+                # depends on the order background tasks complete.
+                ((self.random.random(), doc_id) for doc_id in sorted(scored_passages)),
             )
             scored_passages = {
                 doc_id: scored_passages[doc_id] for _, doc_id in keep_keys
-- 
2.43.0


From 7b97cbb72e0ba0be594e8dacd0e3973695a01d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 14/35] fix: label graph nodes with values that are not text

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 35895e2..787c1c3 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1878,7 +1878,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(str(value) for _, _, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From cf4f1d811ce4010901519a397606a234756111da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 15/35] fix: commit reindexed contents and cluster summaries
 together

---
 hyperreal/index.py | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 787c1c3..a0b99c9 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -532,15 +532,43 @@ class Index:
                 """
             )
 
-            # Update all cluster stats based on new index stats
-            self.db.execute(
-                "insert into changed_cluster select cluster_id from cluster"
+            # Update all cluster stats based on new index stats. This happens here,
+            # rather than in the background, because the new contents can't be seen
+            # by other processes until they are committed together with the stats.
+            cluster_stats = list(
+                self.db.execute(
+                    """
+                    select
+                        cluster_id,
+                        count(*),
+                        sum(ii.docs_count),
+                        roaring_union(ii.doc_ids)
+                    from feature_cluster fc
+                    inner join inverted_index ii using(feature_id)
+                    group by cluster_id
+                    """
+                )
             )
 
-            self.db.execute("commit")
+            for cluster_id, feature_count, weight, doc_ids in cluster_stats:
+                query = db_utilities.load_bitmap(doc_ids)
+                self.db.execute(
+                    """
+                    update cluster set
+                        (feature_count, docs_count, weight, doc_ids) = (?, ?, ?, ?)
+                    where cluster_id = ?
+                    """,
+                    (feature_count, len(query), weight, query, cluster_id),
+                )
+
+            self.db.execute(
+                """
+                delete from cluster
+                where cluster_id not in (select cluster_id from feature_cluster)
+                """
+            )
+            self.db.execute("delete from changed_cluster")
 
-            self.db.execute("begin")
-            self._update_changed_clusters()
             self.db.execute("commit")
 
         except Exception:
-- 
2.43.0


From e7e529f6e93a667cc66d7b603f42e81311008fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 16/35] fix: wait for unfinished batches when indexing fails

---
 hyperreal/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index a0b99c9..649fbf0 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -344,6 +344,7 @@ class Index:
             write_lock = manager.Lock()
 
             detach = False
+            futures = set()
 
             # Always work in a new directory, so nothing left over in working_dir
             # by an earlier run can be picked up by this one.
@@ -363,8 +364,6 @@ class Index:
             batch_doc_keys = []
             batch_size = 0
 
-            futures = set()
-
             self.logger.info("Beginning indexing.")
 
             for doc_key in doc_keys:
@@ -578,6 +577,13 @@ class Index:
 
         finally:
             self.db.execute("pragma foreign_keys=1")
+
+            # After a failure there may be batches that haven't finished. These
+            # still need the lock and the temporary directory.
+            for f in futures:
+                f.cancel()
+            cf.wait(futures)
+
             manager.shutdown()
 
             if detach:
-- 
2.43.0


From 5bcdc34b57052dc9b7a1c7bf79ee0d458e79932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 17/35] fix: roll back an edit when updating the changed
 clusters fails

---
 hyperreal/index.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 649fbf0..1ba2560 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -104,9 +104,16 @@ def atomic(writes=False):
                 if writes:
                     self._changed = True
 
+                # We're at the outermost transaction level and are about to commit.
+                if self._transaction_level == 1 and self._changed:
+                    self.logger.info(f"Changes detected - updating clusters.")
+                    # Note that this will check for changed queries, and will
+                    # therefore be a noop if there aren't any.
+                    self._update_changed_clusters()
+
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
                 # Rewind to the previous savepoint, then release it
                 # This is necessary to behave nicely whether we are operating
@@ -117,13 +124,7 @@ def atomic(writes=False):
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
                 self.db.execute(f'release "{func.__name__}"')
-- 
2.43.0


From 15114139eee13c80e5be314d67ffbc7daca14b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 18/35] fix: roll back indexing when it is interrupted

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1ba2560..dc71309 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -571,7 +571,7 @@ class Index:
 
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
             self.db.execute("rollback")
             raise
-- 
2.43.0


From c7783a6b28b66fbcd2f1c1ea3e3f6335f5a092aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 19/35] fix: refresh the clusters after migrating an old index

---
 hyperreal/index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index dc71309..0849fa9 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -157,6 +157,7 @@ class Index:
         self.db = db_utilities.connect_sqlite(self.db_path)
         self.random = random.Random(random_seed)
 
+        self.corpus = corpus
         self._pool = pool
 
         for statement in """
@@ -175,8 +176,6 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        self.corpus = corpus
-
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
         }
-- 
2.43.0


From 9f01030e800f41adbdf0c59ce51ae2693e3a453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 20/35] fix: refuse databases of other applications as an index

---
 hyperreal/_index_schema.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index b50177f..3519426 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -238,14 +238,14 @@ def migrate(db):
 
     """
 
+    db_path = list(db.execute("pragma database_list"))[0][2]
     db_version = list(db.execute("pragma user_version"))[0][0]
+    tables = {row[0] for row in db.execute("select name from sqlite_master")}
 
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-        table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
-
-        if table_count > 0:
+        if tables:
             raise MigrationError(
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
@@ -261,7 +261,15 @@ def migrate(db):
         # as in this case there won't be any further action to take.
         return False
 
-    elif db_version == CURRENT_SCHEMA_VERSION:
+    # Other applications also use user_version for their own databases.
+    application_id = list(db.execute("pragma application_id"))[0][0]
+
+    if application_id not in (0, MAGIC_APPLICATION_ID) or not tables.issuperset(
+        ("settings", "doc_key", "inverted_index", "cluster", "feature_cluster")
+    ):
+        raise MigrationError(f"Database at '{db_path}' is not an index.")
+
+    if db_version == CURRENT_SCHEMA_VERSION:
         return False
 
     elif db_version in migrations:
-- 
2.43.0


From 4aa49764f2c8f9654e23905dac3209ac42747d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 21/35] fix: is_index_db for files that are not databases and
 special characters in paths

---
 hyperreal/index.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 0849fa9..d8871c6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -17,6 +17,7 @@ import logging
 import math
 import multiprocessing as mp
 import os
+import pathlib
 import random
 import sqlite3
 import tempfile
@@ -218,13 +219,21 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
+            # Characters such as ? have a special meaning in a URI.
+            uri = pathlib.Path(db_path).absolute().as_uri()
+            db = sqlite3.connect(f"{uri}?mode=ro", uri=True)
+        except sqlite3.OperationalError:
+            return False
+
+        try:
             return (
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
             )
-        except sqlite3.OperationalError:
+        except sqlite3.DatabaseError:
             return False
+        finally:
+            db.close()
 
     def __enter__(self):
         self.db.execute("begin")
-- 
2.43.0


From 457a2d0ce177087eaecb92724037472cd99ec97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 22/35] fix: report errors when replacing the documents of a
 plain text corpus

---
 hyperreal/corpus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..377d3a1 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -185,6 +185,7 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
 
         except Exception:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
-- 
2.43.0


From 540d3abb55a8bba088d736be7a568f79353e763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 23/35] fix: create one document per line of a plain text file

---
 hyperreal/cli.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..322f29a 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -129,12 +129,22 @@ def plaintext_corpus_create(text_file, corpus_db):
     doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
 
     with open(text_file, "r", encoding="utf-8") as infile:
-        f = csv.reader(infile)
         # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
+        docs = (_decode_line(line.rstrip("\n")) for line in infile if line.strip())
         doc_corpus.replace_docs(docs)
 
 
+def _decode_line(line):
+    """Decode the escapes of a line that is a JSON string, all other lines are kept as is."""
+    if len(line) >= 2 and line[0] == line[-1] == '"':
+        try:
+            return json.loads(line)
+        except json.JSONDecodeError:
+            pass
+
+    return line
+
+
 @plaintext_corpus.command(name="serve")
 @click.argument("corpus_db", type=click.Path(exists=True, dir_okay=False))
 @click.argument("index_db", type=click.Path(exists=True, dir_okay=False))
-- 
2.43.0


From e1d0d9ca9c00c7290b458350b713602260105379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 24/35] fix: keep the documents of a plain text corpus when
 replacing is interrupted

---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 377d3a1..7e2fb76 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,7 +183,7 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
             raise
 
-- 
2.43.0


From e2b6fc1cffcd3447f8507c8f0998dcf557c1d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 25/35] fix: index the text that follows a code block

Removing the element from the tree also removed its tail text.
---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 7e2fb76..4600b65 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -730,7 +730,8 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 # Extract text of code blocks
                 code_blocks.append(" ".join(node.itertext()))
                 # Then remove them, treat everything else as post text
-                node.getparent().remove(node)
+                # (the text after the code block is kept).
+                node.clear(keep_tail=True)
 
             # This is a little wrong, ideally we'd handle the cases where
             # the code blocks are removed with a sentinel...
-- 
2.43.0


From 3eac9d13a3de05755cf40a2cda000a73e780e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 26/35] fix: show names and tags of Stack Exchange posts as
 text

User names and tags were not escaped, deleted users were written as an unknown
HTML element, and users missing from the dump as None.
---
 hyperreal/corpus.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 4600b65..eb18b17 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -557,21 +557,21 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                     Copyright {{ base_fields["ContentLicense"]}} by
                     {% if base_fields["OwnerUserId"] %}
                     <a href="{{ '{}/users/{}'.format(base_fields["site_url"], base_fields["OwnerUserId"]) }}">
-                        {{ base_fields["DisplayName"] }}
+                        {{ base_fields["DisplayName"] | e }}
                     </a>
                     {% else %}
-                    <Deleted User>
+                    {{ base_fields["DisplayName"] | e }}
                     {% endif %}
                 </small>
             </p>
 
-            {{ base_fields["Body"] }}
+            {{ base_fields["Body"] or "" }}
 
             <details>
                 <summary>Tags:</summary>
                 <ul>
                     {% for tag in tags %}
-                    <li>{{ tag }}
+                    <li>{{ tag | e }}</li>
                     {% endfor %}
                 </ul>
             </details>
@@ -585,10 +585,10 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                                 Copyright {{ comment["ContentLicense"]}} by
                                 {% if comment["UserId"] %}
                                 <a href="{{ '{}/users/{}'.format(comment["site_url"], comment["UserId"]) }}">
-                                    {{ comment["DisplayName"] }}
+                                    {{ comment["DisplayName"] | e }}
                                 </a>
                                 {% else %}
-                                <Deleted User>
+                                {{ comment["DisplayName"] | e }}
                                 {% endif %}
                             </small>
                         </li>
@@ -611,12 +611,15 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                     -- the tags are not present on answers, only questions.
                     coalesce(Post.ParentId, Post.Id) as TagPostId,
                     Post.OwnerUserId,
-                    (
-                        select DisplayName
-                        from User
-                        where
-                            (User.site_id, User.Id) =
-                            (Post.site_id, Post.OwnerUserId)
+                    coalesce(
+                        (
+                            select DisplayName
+                            from User
+                            where
+                                (User.site_id, User.Id) =
+                                (Post.site_id, Post.OwnerUserId)
+                        ),
+                        '<Deleted User>'
                     ) as DisplayName,
                     post.ContentLicense,
                     post.PostType,
@@ -649,12 +652,15 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 select
                     site_url,
                     UserId,
-                    (
-                        select DisplayName
-                        from User
-                        where
-                            (User.site_id, User.Id) =
-                            (comment.site_id, comment.UserId)
+                    coalesce(
+                        (
+                            select DisplayName
+                            from User
+                            where
+                                (User.site_id, User.Id) =
+                                (comment.site_id, comment.UserId)
+                        ),
+                        '<Deleted User>'
                     ) as DisplayName,
                     Text,
                     ContentLicense
-- 
2.43.0


From 4f8807c51264f5548b051cef72f674aab44f7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 27/35] fix: show concordances in the web interface when asked
 for

They were replaced by the documents, and the template checked for another name.
---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..2e1c9e9 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -134,7 +134,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -384,7 +384,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..fda1943 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type == 'concordance' %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From 21ac2d532f7b4421e25a8b7ab0cc0ccf7b257bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 28/35] fix: accept indexes of the oldest supported version

They have no settings table.
---
 hyperreal/_index_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 3519426..3f6c4dd 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -265,7 +265,7 @@ def migrate(db):
     application_id = list(db.execute("pragma application_id"))[0][0]
 
     if application_id not in (0, MAGIC_APPLICATION_ID) or not tables.issuperset(
-        ("settings", "doc_key", "inverted_index", "cluster", "feature_cluster")
+        ("doc_key", "inverted_index", "field_summary", "cluster", "feature_cluster")
     ):
         raise MigrationError(f"Database at '{db_path}' is not an index.")
 
-- 
2.43.0


From 27a2602041885a0caaa2cb3526b0c956b53c2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 29/35] fix: link to neighbouring clusters when one of them is
 cluster 0

---
 hyperreal/templates/cluster.html | 2 +-
 hyperreal/templates/macros.html  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/templates/cluster.html b/hyperreal/templates/cluster.html
index 5285055..4aea7d5 100644
--- a/hyperreal/templates/cluster.html
+++ b/hyperreal/templates/cluster.html
@@ -14,7 +14,7 @@
 
 <ul class="nav-links">
     <li><a href="/index/{{ index_id }}/cluster/{{ cluster_id }}">Cluster Overview</a></li>
-    {% if prev_cluster_id or next_cluster_id %}
+    {% if prev_cluster_id is not none or next_cluster_id is not none %}
     <li><a href="/index/{{ index_id }}/cluster/{{ prev_cluster_id }}">Previous Cluster</li>
     <li><a href="/index/{{ index_id }}/cluster/{{ next_cluster_id }}">Next Cluster</li>
     {% endif %}
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index fda1943..c0a5471 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -100,7 +100,7 @@
         <label for="site-search">for</label>
         <input type="search" id="target_value" name="value" />
         <button type="submit">Search</button>
-        {% if cluster_id %}
+        {% if cluster_id is not none %}
         <input type="hidden" name="cluster_id" value="{{ cluster_id }}"/>
         {% endif %}
     </form>
-- 
2.43.0


From 5c8a4556b88283bc67fb0421b5cdea9efba193c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 30/35] fix: lock the database while it is created or migrated

---
 hyperreal/_index_schema.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 3f6c4dd..62b86a8 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -238,6 +238,23 @@ def migrate(db):
 
     """
 
+    if list(db.execute("pragma user_version"))[0][0] == CURRENT_SCHEMA_VERSION:
+        return _migrate(db)
+
+    # Other connections can be creating or migrating the same database.
+    db.execute("begin immediate")
+
+    try:
+        migrated = _migrate(db)
+        db.execute("commit")
+    except BaseException:
+        db.execute("rollback")
+        raise
+
+    return migrated
+
+
+def _migrate(db):
     db_path = list(db.execute("pragma database_list"))[0][2]
     db_version = list(db.execute("pragma user_version"))[0][0]
     tables = {row[0] for row in db.execute("select name from sqlite_master")}
@@ -250,13 +267,9 @@ def migrate(db):
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
         else:
-            db.execute("begin")
-
             for statement in CURRENT_SCHEMA.split("--------"):
                 db.execute(statement)
 
-            db.execute("commit")
-
         # Note that an initialisation is treated as if the index already existed
         # as in this case there won't be any further action to take.
         return False
@@ -273,8 +286,6 @@ def migrate(db):
         return False
 
     elif db_version in migrations:
-        db.execute("begin")
-
         m = sorted(migrations.items())
 
         # Run premigration steps
@@ -293,8 +304,6 @@ def migrate(db):
                 for statement in migration[1]:
                     db.execute(statement)
 
-        db.execute("commit")
-
         return True
 
     else:
-- 
2.43.0


From c79d1c23b42c355b35717856630ca2e3200c8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 31/35] fix: refresh the clusters after a migration that was
 interrupted

---
 hyperreal/index.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d8871c6..4e713e8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -154,6 +154,21 @@ class Index:
         across Python versions.
 
         """
+        self._open(db_path, corpus, pool, random_seed)
+
+        # A migration leaves clusters to update, and might have been interrupted
+        # before that was done.
+        if list(self.db.execute("select 1 from changed_cluster limit 1")):
+            self.db.execute("begin immediate")
+
+            try:
+                self._update_changed_clusters()
+                self.db.execute("commit")
+            except BaseException:
+                self.db.execute("rollback")
+                raise
+
+    def _open(self, db_path, corpus=None, pool=None, random_seed=None):
         self.db_path = db_path
         self.db = db_utilities.connect_sqlite(self.db_path)
         self.random = random.Random(random_seed)
@@ -170,12 +185,7 @@ class Index:
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
-
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
+        _index_schema.migrate(self.db)
 
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
@@ -245,7 +255,7 @@ class Index:
         return self.db_path, self.corpus
 
     def __setstate__(self, args):
-        self.__init__(args[0], corpus=args[1])
+        self._open(args[0], corpus=args[1])
 
     def close(self):
         self.db.close()
-- 
2.43.0


From ba5de7ea4074ef7e9fa091d73eb5b5d5ef23e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 32/35] fix: leave out missing references when indexing tweets

---
 hyperreal/corpus.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index eb18b17..459d035 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1022,30 +1022,32 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         if doc["retweeted_tweet_id"] is None:
             tokens = utilities.social_media_tokens(html.unescape(doc["text"]))
 
+            # Everything except the text is a set, as there are no meaningful
+            # positions, and references can be missing (None).
             indexed = {
                 "text": tokens,
                 "#": {h.lower() for h in doc["hashtags"]},
                 "@": {m.lower() for m in doc["mentions"]},
-                "conversation_id": [doc["conversation_id"]],
-                "by": [doc["user"]["username"]],
+                "conversation_id": {doc["conversation_id"]},
+                "by": {doc["user"]["username"]},
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
-                "by": [doc["user"]["username"]],
-                "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "by": {doc["user"]["username"]},
+                "retweeted_tweet_id": {doc["retweeted_tweet_id"]},
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-            indexed[f"created_{granularity}"] = [dt.isoformat()]
+            indexed[f"created_{granularity}"] = {dt.isoformat()}
 
         return indexed
-- 
2.43.0


From 4283d8e4b20ac98b18e8d9faf2db0cd0f7788db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 33/35] fix: let the serve commands end when asked to terminate

---
 hyperreal/cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index 322f29a..6892807 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -168,6 +168,8 @@ def plaintext_corpus_serve(corpus_db, index_db):
             pool=pool,
         )
         engine = hyperreal.server.launch_web_server(index_server)
+        # The engine waits for the threads of the pool when it's asked to exit.
+        engine.subscribe("exit", pool.shutdown)
         engine.block()
 
 
@@ -237,6 +239,8 @@ def stackexchange_corpus_serve(corpus_db, index_db):
             pool=pool,
         )
         engine = hyperreal.server.launch_web_server(index_server)
+        # The engine waits for the threads of the pool when it's asked to exit.
+        engine.subscribe("exit", pool.shutdown)
         engine.block()
 
 
@@ -282,6 +286,8 @@ def twittersphere_corpus_serve(corpus_db, index_db):
             pool=pool,
         )
         engine = hyperreal.server.launch_web_server(index_server)
+        # The engine waits for the threads of the pool when it's asked to exit.
+        engine.subscribe("exit", pool.shutdown)
         engine.block()
 
 
@@ -504,4 +510,6 @@ def serve(index_db):
     with cf.ProcessPoolExecutor(mp_context=mp_context) as pool:
         index_server = hyperreal.server.SingleIndexServer(index_db, pool=pool)
         engine = hyperreal.server.launch_web_server(index_server)
+        # The engine waits for the threads of the pool when it's asked to exit.
+        engine.subscribe("exit", pool.shutdown)
         engine.block()
-- 
2.43.0


From 966267220c53fa2e7a29e5e4a4446df583cbab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:19 +0000
Subject: [PATCH 34/35] fix: an interrupted Stack Exchange load is rolled back

---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 459d035..07b6587 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -462,7 +462,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
+        except BaseException:
             self.db.execute("rollback")
             raise
 
-- 
2.43.0


From 5b34f32911ef115b48d8afa5de288c10447b29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 35/35] fix: rendering a missing post or tweet doesn't keep a
 transaction open

---
 hyperreal/corpus.py | 80 ++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 07b6587..40a4b69 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -678,24 +678,26 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a HTML version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_html")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            docs.append(
-                (
-                    key,
-                    Markup(
-                        self.TEMPLATE.render(
-                            base_fields=base_fields,
-                            tags=tags,
-                            user_comments=user_comments,
-                        )
-                    ),
+        try:
+            docs = []
+
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                docs.append(
+                    (
+                        key,
+                        Markup(
+                            self.TEMPLATE.render(
+                                base_fields=base_fields,
+                                tags=tags,
+                                user_comments=user_comments,
+                            )
+                        ),
+                    )
                 )
-            )
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
@@ -703,23 +705,25 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a simplified tabular version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_spreadsheet")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            base_fields["tags"] = ", ".join(tags)
-            base_fields["comments"] = json.dumps(
-                [
-                    {
-                        key: comment[key]
-                        for key in ["DisplayName", "Text", "ContentLicense"]
-                    }
-                    for comment in user_comments
-                ]
-            )
-            docs.append((key, base_fields))
+        try:
+            docs = []
 
-        self.db.execute("release render_docs_spreadsheet")
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                base_fields["tags"] = ", ".join(tags)
+                base_fields["comments"] = json.dumps(
+                    [
+                        {
+                            key: comment[key]
+                            for key in ["DisplayName", "Text", "ContentLicense"]
+                        }
+                        for comment in user_comments
+                    ]
+                )
+                docs.append((key, base_fields))
+
+        finally:
+            self.db.execute("release render_docs_spreadsheet")
 
         return docs
 
@@ -995,12 +999,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
-        docs = [
-            (key, Markup(self.TEMPLATE.render(doc=doc)))
-            for key, doc in self.docs(doc_keys=doc_keys)
-        ]
+        try:
+            docs = [
+                (key, Markup(self.TEMPLATE.render(doc=doc)))
+                for key, doc in self.docs(doc_keys=doc_keys)
+            ]
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
-- 
2.43.0

