From ac3147d9661d633ecf438b9e5e6a19f437e198c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 01/40] fix: hold the coordinator mutex when a worker reports
 completion

A worker decremented the pending count and signalled the coordinator's
condition variable without the mutex the coordinator waits with, so the wake
up could be lost between its test of the count and its wait, and run() hung.
---
 libman/fcm_coordinator.cpp         |  1 +
 libman/gmeans_coordinator.cpp      |  1 +
 libman/gmm_coordinator.cpp         |  1 +
 libman/hclust_coordinator.cpp      |  1 +
 libman/kmeans_coordinator.cpp      |  1 +
 libman/kmeans_task_coordinator.cpp |  1 +
 libman/medoid_coordinator.cpp      |  1 +
 libman/skmeans_coordinator.cpp     |  1 +
 libman/task_thread.cpp             | 16 ++--------------
 libman/thread.cpp                  | 22 +++++++++++++++++++---
 libman/thread.hpp                  | 12 +++++++++++-
 libman/xmeans_coordinator.cpp      |  1 +
 12 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..d27c5c3 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -65,6 +65,7 @@ void fcm_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, k, fuzzindex, um, centers, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..276c5dc 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -67,6 +67,7 @@ void gmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmeans>(threads[thd_id])
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..7b44962 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -71,6 +71,7 @@ void gmm_coordinator::build_thread_state() {
         threads.push_back(gmm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second, ncol, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmm>(threads[thd_id])->set_alg_metadata(
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..04e5fae 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -74,6 +74,7 @@ void hclust_coordinator::build_thread_state() {
                     ncol, k, hcltrs, &cluster_assignments[0], fn, _dist_t,
                     cltr_active_vec));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<hclust>(threads[thd_id])
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..a5bb5de 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void kmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..71d8b97 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -72,6 +72,7 @@ void kmeans_task_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<task_thread>(threads[thd_id])
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..f8411f8 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -81,6 +81,7 @@ void medoid_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0],
                     fn, sample_rate));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<medoid>(threads[thd_id])->set_coordinator(this);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..302428b 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void skmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..7978724 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,14 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    signal_complete();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    signal_complete();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..724a813 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -36,14 +36,30 @@ void thread::sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
+    signal_complete();
+    pthread_mutex_unlock(&mutex);
+}
+
+void thread::signal_complete() {
+    int rc;
+    // The parent tests parent_pending_threads & waits with its mutex held, so
+    //  the update must be made with it held too else the wake up can be lost
+    if (parent_mutex) {
+        rc = pthread_mutex_lock(parent_mutex);
+        if (rc) perror("pthread_mutex_lock");
+    }
+
     set_thread_state(WAIT);
 
-    if (*parent_pending_threads == 0) {
+    if (--(*parent_pending_threads) == 0) {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
-    pthread_mutex_unlock(&mutex);
+
+    if (parent_mutex) {
+        rc = pthread_mutex_unlock(parent_mutex);
+        if (rc) perror("pthread_mutex_unlock");
+    }
 }
 
 void thread::wait() {
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..9f9cb76 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards parent_cond's predicate
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -146,6 +147,10 @@ protected:
         this->state = state;
     }
 
+    // Record that this thread has completed its task & tell the parent if it
+    //  was the last one
+    void signal_complete();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -233,6 +238,11 @@ public:
         parent_cond = cond;
     }
 
+    // The mutex the parent holds when it waits on parent_cond
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..e08fcaf 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -63,6 +63,7 @@ void xmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<xmeans>(threads[thd_id])
-- 
2.43.0


From 6df46c34426df90417813ac1b14f2fddf7fae539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/40] fix: never let a worker start before its waker has
 assigned its task

The worker's loop read its state without the lock. A waker sets the state
before it resets the task queue, the current task and the local clusters, so a
worker that looked at the state in between ran with the stale task.
---
 libman/thread.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 9f9cb76..9d3ad8c 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,8 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        // Always sync with the waker, who may still be assigning our task
+        t->wait();
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 59d142d8b38728e1b390379d167e65e1c74d82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 03/40] fix: join the workers before destroying what they use

The coordinator freed the data, the mutex and the condition variable, and a
thread its own mutex and condition variable, while workers still waited on
them.
---
 libman/coordinator.cpp | 8 ++++++--
 libman/thread.cpp      | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..4fa281c 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -160,14 +160,18 @@ void coordinator::run_init() {
 }
 
 coordinator::~coordinator() {
+    // The threads use everything destroyed below so they must be done first
+    destroy_threads();
+
     thread_iter it = threads.begin();
-    for (; it != threads.end(); ++it)
+    for (; it != threads.end(); ++it) {
+        (*it)->join();
         (*it)->destroy_numa_mem();
+    }
 
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
-    destroy_threads();
 }
 
 } // End namespace knor
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 724a813..0c06b97 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -170,6 +170,9 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
+    if (thd_id != INVALID_THD_ID)
+        join(); // The running thread uses the mutex & cond
+
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
@@ -181,7 +184,5 @@ thread::~thread() {
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
-    if (thd_id != INVALID_THD_ID)
-        join();
 }
 } // End namespace knor
-- 
2.43.0


From 1aef71adc096b43ca00d88ec94f95cc86b4ee902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 04/40] fix: free the last task a worker was given

Every wake up leaked the task the worker finished the previous one with.
---
 libman/kmeans_task_thread.cpp | 1 +
 libman/task_thread.cpp        | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 4c055b2..a3c54db 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -112,6 +112,7 @@ void kmeans_task_thread::wake(thread_state_t state) {
             state == thread_state_t::MB_EM) {
         // Threads only sleep if they AND all other threads have no tasks
         tasks->reset(); // NOTE: Only place this is reset
+        delete curr_task; // The last task of the previous wake
         curr_task = tasks->get_task();
         assert(curr_task->get_nrow() <= tasks->get_nrow());
 
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 7978724..bc6030d 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -36,7 +36,8 @@ task_thread::task_thread(const int node_id, const unsigned thd_id,
         const std::string fn, kbase::dist_t dist_metric):
             thread(node_id, thd_id, ncol,
             cluster_assignments, start_rid, fn, dist_metric),
-        g_clusters(g_clusters), prune_init(true), _is_numa(false) {
+        g_clusters(g_clusters), curr_task(NULL), prune_init(true),
+        _is_numa(false) {
 
                 ur_distribution =
                     std::uniform_real_distribution<double>(0.0, 1.0);
@@ -128,6 +129,7 @@ const unsigned task_thread::get_global_data_id(const unsigned row_id) const {
 }
 
 task_thread::~task_thread() {
+  delete curr_task;
   delete tasks;
 }
 } } // End namespace knor, prune
-- 
2.43.0


From a548e47c407e8297a2bf1a6f92144533a48f684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 05/40] fix: a thread frees exactly the data that was allocated
 for it

Destroying a coordinator that never ran, or that was given both a file and the
data, freed a pointer that was never set or that the caller owns, and the copies
numa_reorg hands to the threads of a coordinator without a file leaked.
---
 libman/thread.cpp | 3 +++
 libman/thread.hpp | 5 ++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 0c06b97..bfac6de 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -132,6 +132,7 @@ void thread::numa_alloc_mem() {
 #else
     local_data = new double [blob_size/sizeof(double)];
 #endif
+    preallocd_data = false;
     fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
 #ifdef NDEBUG
     size_t nread = fread(local_data, blob_size, 1, f);
@@ -147,6 +148,8 @@ void thread::set_local_data_ptr(double* data, bool offset) {
         local_data = &(data[start_rid*ncol]); // Grab your offset
     else
         local_data = data;
+    // Data that needs no offset was allocated for this thread (see numa_reorg)
+    preallocd_data = offset;
 }
 
 void thread::bind2node_id() {
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 9d3ad8c..639f704 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -121,8 +121,8 @@ protected:
             const std::string fn="",
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
-        start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        parent_mutex(NULL), preallocd_data(false) {
+        start_rid(start_rid), local_data(NULL), local_clusters(nullptr),
+        dist_metric(dist_metric), parent_mutex(NULL), preallocd_data(true) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -136,7 +136,6 @@ protected:
         }
         else {
             this->f = NULL;
-            preallocd_data = true;
         }
 
         meta.num_changed = 0; // Same as meta.clust_idx = 0;
-- 
2.43.0


From 4545df0e12cb2182e14470c6586f0415d205a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 06/40] fix: measure the first centroid shift of pruned k-means
 from the initial centers

The first iteration never recorded the centers its distances were computed to, so
the shift added to every row's upper bound was the distance of the new centroid
to the origin. With data near the origin that is less than the true shift, the
bound is too low, and rows were kept in a cluster that is not their nearest.
---
 libauto/min-tri-kmeans.cpp         | 3 ++-
 libman/kmeans_task_coordinator.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..ea524c7 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -319,10 +319,11 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 #endif
 
+    cls->set_prev_means();
+
     if (prune_init) {
         cls->clear();
     } else {
-        cls->set_prev_means();
         cls->unfinalize_all();
     }
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 71d8b97..6e52542 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -130,13 +130,14 @@ void kmeans_task_coordinator::mb_iteration_end() {
 }
 
 void kmeans_task_coordinator::update_clusters(const bool prune_init) {
+    cltrs->set_prev_means();
+
     if (prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
         cltrs->clear();
     } else {
-        cltrs->set_prev_means();
         cltrs->unfinalize_all();
     }
 
-- 
2.43.0


From f7786e8b0a87dc9a4d81baccddac587e54a005ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 07/40] fix: do not prune with Euclidean bounds when the metric
 is not Euclidean

The triangle inequality bounds compare half the Euclidean distance between
centroids, and Euclidean centroid shifts, with distances in the chosen metric.
For cos, taxi and sqeucl rows were kept in a cluster that is not their nearest.
---
 libauto/min-tri-kmeans.cpp    | 10 +++++++---
 libman/kmeans_task_thread.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ea524c7..3eb4a64 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -218,6 +218,9 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
         std::vector<double>& dist_v,
         kprune::dist_matrix::ptr dm, const bool prune_init=false) {
 
+    // All the bounds are Euclidean & say nothing about any other metric
+    const bool prunable = (kbase::dist_t::EUCL == g_dist_type);
+
     std::vector<kbase::clusters::ptr> pt_cl(OMP_MAX_THREADS);
     // Per thread changed cluster count. OMP_MAX_THREADS
     std::vector<size_t> pt_num_change(OMP_MAX_THREADS);
@@ -251,12 +254,13 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
             recalculated_v->set(row, false);
             dist_v[row] += cls->get_prev_dist(cluster_assignments[row]);
 
-            if (dist_v[row] <= cls->get_s_val(cluster_assignments[row])) {
+            if (prunable &&
+                    dist_v[row] <= cls->get_s_val(cluster_assignments[row])) {
                 // Skip all rows
             } else {
                 for (unsigned clust_idx = 0; clust_idx < K; clust_idx++) {
 
-                    if (dist_v[row] <= dm->get(cluster_assignments[row],
+                    if (prunable && dist_v[row] <= dm->get(cluster_assignments[row],
                                 clust_idx)) {
                         // Skip this cluster
                         continue;
@@ -269,7 +273,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
                         recalculated_v->set(row, true);
                     }
 
-                    if (dist_v[row] <= dm->get(cluster_assignments[row],
+                    if (prunable && dist_v[row] <= dm->get(cluster_assignments[row],
                                 clust_idx)) {
                         // Skip this cluster
                         continue;
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index a3c54db..640c831 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -183,6 +183,9 @@ void kmeans_task_thread::mb_EM_step() {
 }
 
 void kmeans_task_thread::EM_step() {
+    // All the bounds are Euclidean & say nothing about any other metric
+    const bool prunable = (kbase::dist_t::EUCL == dist_metric);
+
     for (unsigned row = 0; row < curr_task->get_nrow(); row++) {
         unsigned true_row_id = get_global_data_id(row);
         unsigned old_clust = cluster_assignments[true_row_id];
@@ -208,14 +211,15 @@ void kmeans_task_thread::EM_step() {
             dist_v[true_row_id] +=
                 g_clusters->get_prev_dist(cluster_assignments[true_row_id]);
 
-            if (dist_v[true_row_id] <=
+            if (prunable && dist_v[true_row_id] <=
                     g_clusters->get_s_val(cluster_assignments[true_row_id])) {
                 // Skip all rows
             } else {
                 for (unsigned clust_idx = 0;
                         clust_idx < g_clusters->get_nclust(); clust_idx++) {
 
-                    if (dist_v[true_row_id] <= dm->get(cluster_assignments
+                    if (prunable && dist_v[true_row_id] <=
+                            dm->get(cluster_assignments
                                 [true_row_id], clust_idx)) {
                         // Skip this cluster
                         continue;
@@ -230,7 +234,7 @@ void kmeans_task_thread::EM_step() {
                         recalculated_v->set(true_row_id, true);
                     }
 
-                    if (dist_v[true_row_id] <=
+                    if (prunable && dist_v[true_row_id] <=
                             dm->get(cluster_assignments[true_row_id], clust_idx)) {
                         // Skip this cluster
                         continue;
-- 
2.43.0


From 9cd6bdf91ad638d816370ef91019c59dcb551a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/40] fix: run all the requested iterations in the OpenMP
 engines

max_iters EM steps were asked for and one fewer was run, so max_iters=1
returned assignments that had never been computed.
---
 libauto/kmeans.cpp         | 2 +-
 libauto/min-tri-kmeans.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..d9e10aa 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 3eb4a64..1310b7b 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -516,7 +516,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
-- 
2.43.0


From 1c74f8dd149bb554ea49a5868cee813aef44573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 09/40] fix: report the iterations that were run when k-means
 does not converge

The loops left iter one past max_iters, so the result claimed an
iteration more than was allowed or run.
---
 libauto/kmeans.cpp                 | 2 ++
 libauto/min-tri-kmeans.cpp         | 2 ++
 libman/fcm_coordinator.cpp         | 2 ++
 libman/kmeans_coordinator.cpp      | 2 ++
 libman/kmeans_task_coordinator.cpp | 2 ++
 libman/medoid_coordinator.cpp      | 2 ++
 libman/skmeans_coordinator.cpp     | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index d9e10aa..dd2cd24 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -431,6 +431,8 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (!converged && iter > MAX_ITERS)
+        iter = MAX_ITERS; // Iterations actually run
 
     gettimeofday(&end, NULL);
 #ifndef BIND
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 1310b7b..c8b402a 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -561,6 +561,8 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (!converged && iter > MAX_ITERS)
+        iter = MAX_ITERS; // Iterations actually run
 
     gettimeofday(&end, NULL);
 #ifndef BIND
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index d27c5c3..18b99d1 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -195,6 +195,8 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         delete (diff);
         iter++;
     }
+    if (!converged && iter > max_iters)
+        iter = max_iters; // Iterations actually run
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index a5bb5de..5a191e8 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -209,6 +209,8 @@ kbase::cluster_t kmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged && iter > max_iters)
+        iter = max_iters; // Iterations actually run
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 6e52542..5022e50 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -495,6 +495,8 @@ kbase::cluster_t kmeans_task_coordinator::run(
         }
         iter++;
     }
+    if (!converged && iter > max_iters)
+        iter = max_iters; // Iterations actually run
 
     if (iter == 0 && _init_t == kbase::init_t::PLUSPLUS)
         tally_assignment_counts();
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index f8411f8..87023fc 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -265,6 +265,8 @@ kbase::cluster_t medoid_coordinator::run(
         }
         iter++;
     }
+    if (!converged && iter > max_iters)
+        iter = max_iters; // Iterations actually run
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 302428b..648a000 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -247,6 +247,8 @@ kbase::cluster_t skmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged && iter > max_iters)
+        iter = max_iters; // Iterations actually run
 #ifdef PROFILER
     ProfilerStop();
 #endif
-- 
2.43.0


From 861e5e9924e73bc163e8474932e2eff96dac1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/40] fix: draw kmeans++ centers in proportion to their
 distance

The draw is uniform in [0,1), not an integer up to RAND_MAX; dividing by
RAND_MAX made the threshold vanish, so the first row that was not yet a
center was always chosen.
---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index dd2cd24..543f340 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist *= ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index c8b402a..02cb569 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist *= ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..bce20d7 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..f58f1c8 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index 7b44962..250fa14 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -129,7 +129,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 5a191e8..200802a 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -117,7 +117,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 5022e50..16f3c44 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -211,7 +211,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 648a000..e3f9316 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -152,7 +152,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist *= ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From cd795ae3725b71eb2029fd6c8d5b2d76e0f67110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 11/40] fix: keep the assignments allocated when k-means++ is
 restarted

reinit() emptied the vector that the threads and the coordinator index.
---
 libman/kmeans_task_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 16f3c44..5cad541 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -304,7 +304,7 @@ double kmeans_task_coordinator::compute_cluster_energy() {
 
 void kmeans_task_coordinator::reinit() {
     std::fill(&dist_v[0], &dist_v[nrow], std::numeric_limits<double>::max());
-    cluster_assignments.clear();
+    clear_cluster_assignments();
     cluster_assignment_counts.assign(k, 0);
     cltrs->clear();
     run_init();
-- 
2.43.0


From 2b4a8055eaef3d6874e8f641348d95bb30af3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 12/40] fix: grow the bool vector when the index set is its
 size

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From e50b5887afd1318f713e0ae5ece9df95fe33c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 13/40] fix: an empty vmap has no keys and growing one adds
 none

size()-1 wrapped for an empty map, and entries made by growing were not
the empty value, so they counted as keys.
---
 libkcommon/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From 8a19e9cbcb14c444f09454a46f5cd60c4642ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 14/40] fix: alternate the signs of the cofactors in the
 adjoint

The comment says so and the code did not, so the inverse of any matrix
with an odd cofactor was wrong.
---
 libkcommon/linalg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..4d7cd7e 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -102,7 +102,7 @@ namespace knor { namespace base {
 
             // temp is used to store cofactors of A[][]
             std::vector<double> temp(N*N);
-            double sign = 1;
+            double sign;
 
             for (size_t i=0; i<N; i++) {
                 for (size_t j=0; j<N; j++) {
@@ -113,6 +113,7 @@ namespace knor { namespace base {
                     // and column indexes is even.
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
+                    sign = ((i + j) % 2 == 0) ? 1 : -1;
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
                 }
             }
-- 
2.43.0


From 55ac69690812fb1aca20209fec8bb418b7be3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 15/40] fix: scale vectors by their mean, and constant ones too

The sum was accumulated in an int, which truncates each partial sum, and
a constant vector (identical points under g-means) aborted.
---
 libkcommon/linalg.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 4d7cd7e..5808239 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -196,7 +196,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
@@ -207,7 +207,9 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0)
+                stddev = 1; // Constant vector: only center it (as sklearn)
+
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
-- 
2.43.0


From 0fbdd7d16ce1aef045b816ffd236a3a61a92cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 16/40] fix: raise a vector to a power into an allocated result
 too

---
 libkcommon/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 5808239..35dc59f 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -232,6 +232,9 @@ namespace knor { namespace base {
             if (!res.size()) {
                 for (double el : v)
                     res.push_back(std::pow(el, exp));
+            } else {
+                for (size_t i = 0; i < v.size(); i++)
+                    res[i] = std::pow(v[i], exp);
             }
         }
     };
-- 
2.43.0


From 2c6ebe78d45eee3f0c6973d373583122d5d76811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 17/40] fix: find the argmax of rows and columns without
 positive values

numeric_limits<double>::min() is the smallest positive double.
---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From 5afa8c3182cf88c80df5e7fafd9b31719ee49a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 18/40] fix: find the maximum of features that are never
 positive in skmeans

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index e3f9316..e1261a9 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -65,7 +65,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 82e1c235b6d20968d1f3bf1450531df37e20ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 19/40] fix: normalize constant features to zero in skmeans

0/0 gave every row a NaN, no cluster was nearest to it and the run aborted.
---
 libman/skmeans.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..0b4cbe6 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                const double range =
+                    max_feature_val[col] - min_feature_val[col];
+                local_data[row*ncol+col] = range == 0 ? 0 :
+                    (local_data[row*ncol+col] - min_feature_val[col]) / range;
             }
         }
     }
-- 
2.43.0


From 7e1b20c36daaf2b7a209bda6948a8cd84443b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 20/40] fix: give zero vectors a cosine distance

It was 0/0, so a row of zeros (in skmeans: the row with the minimum of
every feature) was not assigned to any cluster and the run aborted.
---
 libkcommon/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..939a0c7 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -124,6 +124,8 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
+    if (ldenom == 0 || rdenom == 0)
+        return 1; // A zero vector has no direction
     return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
 }
 
-- 
2.43.0


From 2847cc452ef09a047c165371ee97aa65ae36961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 21/40] fix: do not report the empty children of a hierarchical
 split

A split of identical rows has an empty child. Its centroid was recorded as
a final cluster without members, which aborts in verify_consistency() or,
built without it, overwrites the centroid of cluster 0.
---
 libman/hclust_coordinator.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 04e5fae..6399045 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -212,10 +212,11 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[zeroid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(zeroid); // So we no longer process this
-            // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            // Record this as an output, unless it is empty
+            if (cluster_assignment_counts[zeroid] > 0)
+                final_centroids[zeroid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(0),
+                        hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
             l0_complete = l1_complete = true;
         }
@@ -223,9 +224,10 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            if (cluster_assignment_counts[oneid] > 0)
+                final_centroids[oneid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(1),
+                        hcltrs[id]->get_mean_rawptr(1) + ncol);
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -412,12 +414,14 @@ void hclust_coordinator::complete_final_centroids() {
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        if (cluster_assignment_counts[c->get_zeroid()] > 0)
+            final_centroids[c->get_zeroid()] =
+                std::vector<double>(c->get_mean_rawptr(0),
+                        c->get_mean_rawptr(0) + ncol);
+        if (cluster_assignment_counts[c->get_oneid()] > 0)
+            final_centroids[c->get_oneid()] =
+                std::vector<double>(c->get_mean_rawptr(1),
+                        c->get_mean_rawptr(1) + ncol);
     }
 }
 
-- 
2.43.0


From 6b77e83355834163fadff89283ff5ec120181684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 22/40] fix: never make more clusters than the maximum asked of
 hmeans, xmeans, gmeans

The count that is held against the cap counted partitions as well as
clusters and was compared with '>', so a maximum of 2 gave 4 clusters and
an unbalanced hierarchy could end with one or two too many (and with more
ids than the arrays indexed by them were sized for).
---
 libman/gmeans_coordinator.cpp | 4 +---
 libman/hclust_coordinator.cpp | 9 +++++----
 libman/hclust_coordinator.hpp | 5 ++++-
 libman/xmeans_coordinator.cpp | 1 +
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 276c5dc..9c45886 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,6 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -152,7 +150,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--;
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 6399045..d8e2adc 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -149,6 +149,7 @@ void hclust_coordinator::forgy_init() {
                 rand_idx), 0);
     cluster_ptr->set_zeroid(splits.first);
     activate(splits.first);
+    curr_nclust = 2;
 
     rand_idx = ui_distribution(ui_generator);
     cluster_ptr->set_mean(get_thd_data(
@@ -163,6 +164,7 @@ void hclust_coordinator::none_init() {
 
     cluster_ptr->set_zeroid(splits.first);
     activate(splits.first);
+    curr_nclust = 2;
 
     cluster_ptr->set_oneid(splits.second);
     activate(splits.second);
@@ -222,7 +224,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         }
 
         if (cluster_assignment_counts[oneid] < min_clust_size
-                || at_cluster_cap()) {
+                || at_cluster_cap(is_active(zeroid) ? 1 : 0)) {
             deactivate(oneid);
             if (cluster_assignment_counts[oneid] > 0)
                 final_centroids[oneid] = std::vector<double>(
@@ -282,6 +284,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
         activate(zero_child_ids.first);
         activate(zero_child_ids.second);
+        curr_nclust++;
     }
 
     if (cp.r_splittable()) {
@@ -292,6 +295,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
         activate(one_child_ids.first);
         activate(one_child_ids.second);
+        curr_nclust++;
     }
 }
 
@@ -304,7 +308,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -326,8 +329,6 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..d109e0c 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,7 +143,10 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        // NOTE: curr_nclust counts leaves, a split turns one into two
+        virtual bool at_cluster_cap(const size_t pending_splits=0) {
+            return curr_nclust + pending_splits >= k*2;
+        }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index e08fcaf..88b1c15 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -227,6 +227,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--;
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From 39e412f44a46db55a452747e372588cec61afb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 23/40] fix: keep clusters of one member when the minimum to
 split is below two

They were neither split nor recorded as final, and the run aborted.
---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index d8e2adc..5337e8c 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    // Fewer than two members cannot be split
+    min_clust_size(std::max(min_clust_size, 2u)), curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 5ea6567a701cb47ac1810f4e775e7bebe27148aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 24/40] fix: compute the mean of an x-means partition from its
 members alone

Ids are recycled, and the sums of the partition that had the id before
were still in the accumulator.
---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 88b1c15..aba9a9d 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -74,7 +74,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Ids are reused by later partitions
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From ef67ae790ef1a21a65528e67b75d38625dcdd5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 25/40] fix: do not insert into a map that other threads read
 in x-means

Looking up a child without members inserted it, in a parallel loop.
---
 libman/xmeans_coordinator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index aba9a9d..4fe16df 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,10 @@ void xmeans_coordinator::compute_bic_scores(
     // TODO: Slow
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
+    for (auto const& score : bic_scores) { // bic() may not insert, it is run ||
+        memb_cltrs[score.lid];
+        memb_cltrs[score.rid];
+    }
 
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
-- 
2.43.0


From b5e698bbb7f52e51b5f837a9f87f89b35dd185c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 26/40] fix: score each child of an x-means split on its own
 members

Both children were given the likelihood of the whole partition, so the
variance term counted twice and whether to split depended on the unit of
the data. An unset score is now the lowest, scores are negative too.
---
 libman/xmeans_coordinator.cpp | 12 ++++++------
 libman/xmeans_coordinator.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 4fe16df..e707ced 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -132,16 +132,16 @@ void xmeans_coordinator::bic(split_score_t& score,
 
         /* splitting criterion */
         double nl = cluster_assignment_counts[score.lid];
-        double L = N * std::log(N) - nl * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
+        double L = (nl > 0 ? nl * std::log(nl) : 0) - nl * std::log(N) - nl *
+            std::log(2.0 * M_PI) * .5 - nl * ncol *
+            std::log(csigma) * .5 - (nl - cK) * .5;
 
         score.cscore = L - p * 0.5 * std::log(N);
 
         double nr = cluster_assignment_counts[score.rid];
-        L = N * std::log(N) - nr * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5- N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
+        L = (nr > 0 ? nr * std::log(nr) : 0) - nr * std::log(N) - nr *
+            std::log(2.0 * M_PI) * .5 - nr * ncol *
+            std::log(csigma) * .5 - (nr - cK) * .5;
         score.cscore += L - p * .5 * std::log(N);
     }
 }
diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 58cfc69..04c5f43 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -37,13 +37,13 @@ struct split_score_t {
 
     split_score_t(const unsigned pid, const unsigned lid, const unsigned rid) :
         pid(pid), lid(lid), rid(rid),
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 
     split_score_t() :
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 };
 
-- 
2.43.0


From 29bf88adae09fa5c8710934e4e61a090922283c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 27/40] fix: use the sample size in the critical values of
 g-means

The number of partitions was used, so for the first rounds the critical
values were negative and every partition was split, normal or not.
---
 libman/gmeans_coordinator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 9c45886..311edfd 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -117,10 +117,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -136,6 +132,11 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
+        // Compute Critical values: they depend on the size of the sample
+        critical_values.clear();
+        base::AndersonDarling::compute_critical_values(
+                ad_vecs[pid].size() - 1, critical_values);
+
         if (score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
-- 
2.43.0


From 999947d98d55d529c79ea68d1f5a8f9f61063e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 28/40] fix: give samples that coincide with a fuzzy center
 their membership in it

At distance zero the contribution was set to epsilon, the least there is,
so the samples chosen as initial centers belonged to every other cluster.
---
 libman/fcm.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..c32c7f4 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -45,13 +45,11 @@ void fcm::Estep() {
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            if (dist > 0) {
-                //TODO: Fix bad access pattern. um -> col major
-                um->set(cid, true_rid,
-                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
-            } else {
-                um->set(cid, true_rid, 2.2E-16);
-            }
+            // A sample at a center is as near as can be, not as far
+            dist = std::max(dist, 2.2E-16);
+            //TODO: Fix bad access pattern. um -> col major
+            um->set(cid, true_rid,
+                    std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
         }
     }
 }
-- 
2.43.0


From 0e713bb0780f8bf184b39118d9646fc0a8deb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 29/40] fix: use the requested metric in k-medoids

The threads were never told of it and always used the Euclidean one.
---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..13480a3 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..64e528a 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 87023fc..a4ec80f 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
-- 
2.43.0


From 270a4fd08ce9506ec7e3d2439c8b2bdc0e5b111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 30/40] fix: vectors of different lengths are not equal

v_eq (and with it the comparison of results) read past the end of the
shorter one, or ignored what the longer one has on top.
---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 939a0c7..26a37f2 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
-- 
2.43.0


From 82d222febe45963372ec0a453a09c2414091d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 31/40] fix: compare the last element too in eq_all

---
 libkcommon/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 26a37f2..98526c6 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -71,7 +71,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(&v1[0], &(v1[len]), &v2[0]));
 }
 
 template <typename T>
-- 
2.43.0


From 4562bfab48329c03273df3e27e8082d75cc1e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 32/40] fix: copy which clusters are finalized when clusters
 are assigned

The copy of finalized means was divided by the counts again.
---
 libkcommon/clusters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index 5514135..1eeab61 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -95,6 +95,7 @@ void clusters::set_num_members_v(const size_t* arg) {
 clusters& clusters::operator=(clusters& other) {
     this->means = other.get_means();
     this->num_members_v = other.get_num_members_v();
+    this->complete_v = other.get_complete_v();
     this->ncol = other.get_ncol();
     this->nclust = other.get_nclust();
     return *this;
-- 
2.43.0


From 155306e163374dfb4d6abd433f5f061dfc071c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 33/40] fix: set every column of a mean given by an iterator

---
 libkcommon/clusters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/clusters.hpp b/libkcommon/clusters.hpp
index cc2abc3..f7f5d53 100644
--- a/libkcommon/clusters.hpp
+++ b/libkcommon/clusters.hpp
@@ -190,7 +190,7 @@ public:
         unsigned nid = 0;
         while(it.has_next()) {
             double e = it.next();
-            means[offset+nid] = e;
+            means[offset+nid++] = e;
         }
     }
 
-- 
2.43.0


From 55ee14d47bd8b063c299076ec6cf7a005c561d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 34/40] fix: project each row on the sphere by its own norm

The first ncol values were scaled again and again, by several threads at
once, and the rows left alone.
---
 libkcommon/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..fc5dd86 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -60,9 +60,11 @@ void spherical_projection(double* data, const size_t nrow,
     for (unsigned row = 0; row < nrow; row++) {
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
+        if (norm2 == 0)
+            continue; // A zero vector has no direction
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            data[row*ncol+col] /= std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From f67add4592c8167db63fcdedd4a684af4a9eabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 35/40] fix: share the rows of the pairwise distance matrix
 among the threads

Without 'for' every thread computed and wrote all of it, in a race.
---
 libkcommon/dist_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 6d3ab48..64b93c9 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -124,7 +124,7 @@ void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
 void dist_matrix::compute_pairwise_dist(double* data,
         const size_t ncol, const knor::base::dist_t metric) {
 #ifdef _OPENMP
-#pragma omp parallel
+#pragma omp parallel for
 #endif
     for (size_t i = 0; i < rows; i++) {
         for (size_t j = i+1; j < rows+1; j++) {
-- 
2.43.0


From 15369c47413b098c83da622c2e1685a1b8f923bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 36/40] fix: always draw a next k-means++ center when rounding
 leaves a remainder

---
 libauto/kmeans.cpp                 | 3 +--
 libauto/min-tri-kmeans.cpp         | 3 +--
 libdist/dist_coordinator.cpp       | 3 +--
 libdist/dist_task_coordinator.cpp  | 3 +--
 libman/gmm_coordinator.cpp         | 3 +--
 libman/kmeans_coordinator.cpp      | 3 +--
 libman/kmeans_task_coordinator.cpp | 3 +--
 libman/skmeans_coordinator.cpp     | 3 +--
 8 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 543f340..34bf214 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -165,7 +165,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
 
         for (size_t i=0; i < NUM_ROWS; i++) {
             cum_dist -= dist_v[i];
-            if (cum_dist <= 0) {
+            if (cum_dist <= 0 || i == NUM_ROWS - 1) { // Rounding may leave some
 #if KM_TEST
 #ifndef BIND
                 printf("Choosing %lu as center K = %u\n", i , clust_idx);
@@ -176,7 +176,6 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
                 break;
             }
         }
-        assert (cum_dist <= 0);
     }
 
 #if VERBOSE
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 02cb569..4214a78 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -184,7 +184,7 @@ static void kmeanspp_init(const double* matrix,
 
         for (size_t i = 0; i < NUM_ROWS; i++) {
             cum_dist -= dist_v[i];
-            if (cum_dist <= 0) {
+            if (cum_dist <= 0 || i == NUM_ROWS - 1) { // Rounding may leave some
 #if KM_TEST
 #ifndef BIND
                 printf("Choosing %lu as center K = %u\n", i, clust_idx);
@@ -195,7 +195,6 @@ static void kmeanspp_init(const double* matrix,
                 break;
             }
         }
-        assert (cum_dist <= 0);
     }
 
 #if VERBOSE
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index bce20d7..548b4c2 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -197,7 +197,7 @@ void dist_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < g_nrow; row++) {
             cuml_dist -= g_dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == g_nrow - 1) { // Rounding may leave some
 #if VERBOSE
                 if (mpi_rank == 0)
 #ifndef BIND
@@ -219,7 +219,6 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&(cltrs->get_means()[0]),
                 &buff[0], cltrs->size());
         cltrs->set_mean(&buff[0]);
-        assert(cuml_dist <= 0);
     }
 
 #if VERBOSE
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index f58f1c8..431b741 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -180,7 +180,7 @@ void dist_task_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < g_nrow; row++) {
             cuml_dist -= g_dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == g_nrow - 1) { // Rounding may leave some
 #if VERBOSE
                 if (mpi_rank == 0)
 #ifndef BIND
@@ -204,7 +204,6 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&(cltrs->get_means()[0]),
                 &buff[0], cltrs->size());
         cltrs->set_mean(&buff[0]);
-        assert(cuml_dist <= 0);
     }
 
 #if VERBOSE
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index 250fa14..56f316a 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -135,13 +135,12 @@ void gmm_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < nrow; row++) {
             cuml_dist -= dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == nrow - 1) { // Rounding may leave some
                 mu_k->set_row(get_thd_data(row), clust_idx);
                 cluster_assignments[row] = clust_idx;
                 break;
             }
         }
-        assert(cuml_dist <= 0);
     }
 
     gettimeofday(&end, NULL);
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 200802a..12428da 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -123,13 +123,12 @@ void kmeans_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < nrow; row++) {
             cuml_dist -= dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == nrow - 1) { // Rounding may leave some
                 cltrs->set_mean(get_thd_data(row), clust_idx);
                 cluster_assignments[row] = clust_idx;
                 break;
             }
         }
-        assert(cuml_dist <= 0);
     }
 
     gettimeofday(&end, NULL);
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 5cad541..eb0cfd2 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -217,7 +217,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < nrow; row++) {
             cuml_dist -= dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == nrow - 1) { // Rounding may leave some
 #if KM_TEST
 #ifndef BIND
                 printf("Choosing %lu as center k = %u\n",
@@ -229,7 +229,6 @@ void kmeans_task_coordinator::kmeanspp_init() {
                 break;
             }
         }
-        assert(cuml_dist <= 0);
     }
 
 #if VERBOSE
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index e1261a9..e4992f2 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -158,13 +158,12 @@ void skmeans_coordinator::kmeanspp_init() {
 
         for (size_t row = 0; row < nrow; row++) {
             cuml_dist -= dist_v[row];
-            if (cuml_dist <= 0) {
+            if (cuml_dist <= 0 || row == nrow - 1) { // Rounding may leave some
                 cltrs->set_mean(get_thd_data(row), clust_idx);
                 cluster_assignments[row] = clust_idx;
                 break;
             }
         }
-        assert(cuml_dist <= 0);
     }
 
     gettimeofday(&end, NULL);
-- 
2.43.0


From 8bd16aa168b8e330f7bd7a95bb7031c01070f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 37/40] fix: reclaim x-means cluster ids in partition order,
 not thread order

---
 libman/xmeans_coordinator.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index e707ced..0a7f104 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -225,17 +225,6 @@ void xmeans_coordinator::partition_decision() {
             // Deactivate pid
             deactivate(score.pid);
             remove_cache->set(i, true);
-#ifdef _OPENMP
-#pragma omp critical
-#endif
-            {
-                ider->reclaim_id(score.lid);
-                ider->reclaim_id(score.rid);
-                curr_nclust--;
-                final_centroids[score.pid] = std::vector<double>(
-                        cltrs->get_mean_rawptr(score.pid),
-                        cltrs->get_mean_rawptr(score.pid) + ncol);
-            }
         } else {
 #ifndef BIND
 #if VERBOSE
@@ -248,7 +237,15 @@ void xmeans_coordinator::partition_decision() {
 
     for (size_t i = 0; i < remove_cache->size(); i++) {
         if (remove_cache->get(i)) {
-            hcltrs.erase(bic_scores[i].pid);
+            // Ids are reused in the order they are reclaimed, so not in the ||
+            auto const& score = bic_scores[i];
+            ider->reclaim_id(score.lid);
+            ider->reclaim_id(score.rid);
+            curr_nclust--;
+            final_centroids[score.pid] = std::vector<double>(
+                    cltrs->get_mean_rawptr(score.pid),
+                    cltrs->get_mean_rawptr(score.pid) + ncol);
+            hcltrs.erase(score.pid);
         }
     }
 }
-- 
2.43.0


From f596f29ad9de88f9448811a0a16ab8e54ee1f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 38/40] fix: let given centroids take precedence in knord in
 any option order

---
 exec/knord.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exec/knord.cpp b/exec/knord.cpp
index 127becc..630bbb9 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -88,7 +88,6 @@ int main(int argc, char* argv[]) {
 				centersfn = std::string(optarg);
                 kbase::assert_msg(kbase::is_file_exist(centersfn.c_str()),
                         "Centers file name doesn't exit!");
-                init = "none"; // Ignore whatever you pass in
 				num_opts++;
 				break;
 			case 'P':
@@ -109,6 +108,9 @@ int main(int argc, char* argv[]) {
 		}
 	}
 
+    if (!centersfn.empty())
+        init = "none"; // Ignore whatever you pass in, in any order
+
     kbase::assert_msg(!(init=="none" && centersfn.empty()),
             "Centers file name doesn't exit!");
 
-- 
2.43.0


From fc87279ecc1429c8073607a4b14a4674cea3a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 39/40] fix: do not call a member function of a distributed
 coordinator before its base is constructed

---
 libdist/dist_coordinator.cpp      | 7 +++++--
 libdist/dist_coordinator.hpp      | 2 +-
 libdist/dist_task_coordinator.cpp | 7 +++++--
 libdist/dist_task_coordinator.hpp | 2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 548b4c2..956e80e 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -36,10 +36,12 @@ dist_coordinator::dist_coordinator(
         const unsigned nnodes, const unsigned nthreads,
         const double* centers, const kbase::init_t it,
         const double tolerance, const kbase::dist_t dt) :
-    kmeans_coordinator(fn, this->init(argc, argv, nrow), ncol, k, max_iters, nnodes,
+    kmeans_coordinator(fn, init(argc, argv, nrow), ncol, k, max_iters, nnodes,
             nthreads, centers, it, tolerance, dt) {
 
         this->g_nrow = nrow;
+        MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
+        MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
 
         for (thread_iter it = threads.begin(); it < threads.end(); ++it)
             (*it)->set_start_rid((*it)->get_start_rid()
@@ -58,7 +60,8 @@ const size_t dist_coordinator::init(int argc, char* argv[],
     if (MPI_Init(&argc, &argv) != MPI_SUCCESS)
         throw std::runtime_error("MPI_Init error\n");
 
-    MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
+    int nprocs, mpi_rank;
+    MPI_Comm_size(MPI_COMM_WORLD, &nprocs);
     MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
 
     if (mpi_rank == (nprocs - 1)) // The last proc always has more
diff --git a/libdist/dist_coordinator.hpp b/libdist/dist_coordinator.hpp
index fa63239..0c575dd 100644
--- a/libdist/dist_coordinator.hpp
+++ b/libdist/dist_coordinator.hpp
@@ -73,7 +73,7 @@ public:
     void shift_thread_start_rid();
 
     const int get_nprocs() const { return nprocs; }
-    const size_t init(int argc, char* argv[], const size_t g_nrow);
+    static const size_t init(int argc, char* argv[], const size_t g_nrow);
     ~dist_coordinator();
 };
 } } // End namespace knor::dist
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 431b741..a20ea16 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -37,10 +37,12 @@ dist_task_coordinator::dist_task_coordinator(
         const unsigned nnodes, const unsigned nthreads,
         const double* centers, const kbase::init_t it,
         const double tolerance, const kbase::dist_t dt) :
-    kmeans_task_coordinator(fn, this->init(argc, argv, nrow),
+    kmeans_task_coordinator(fn, init(argc, argv, nrow),
             ncol, k, max_iters, nnodes, nthreads, centers, it, tolerance, dt) {
 
         this->g_nrow = nrow;
+        MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
+        MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
 
         for (thread_iter it = threads.begin(); it < threads.end(); ++it)
             (*it)->set_start_rid((*it)->get_start_rid()
@@ -58,7 +60,8 @@ const size_t dist_task_coordinator::init(int argc, char* argv[],
     if (MPI_Init(&argc, &argv) != MPI_SUCCESS)
         throw std::runtime_error("MPI_Init error\n");
 
-    MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
+    int nprocs, mpi_rank;
+    MPI_Comm_size(MPI_COMM_WORLD, &nprocs);
     MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
 
     if (mpi_rank == (nprocs - 1)) // The last proc always has more
diff --git a/libdist/dist_task_coordinator.hpp b/libdist/dist_task_coordinator.hpp
index 4eb3d8e..d34d484 100644
--- a/libdist/dist_task_coordinator.hpp
+++ b/libdist/dist_task_coordinator.hpp
@@ -81,7 +81,7 @@ public:
         return prev_num_members;
     }
     const int get_nprocs() const { return nprocs; }
-    const size_t init(int argc, char* argv[], const size_t g_nrow);
+    static const size_t init(int argc, char* argv[], const size_t g_nrow);
     ~dist_task_coordinator();
 };
 } } // End namespace knor, prune
-- 
2.43.0


From 9a8cf11c8b7b232b692f4da699ad79e37856a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:10 +0000
Subject: [PATCH 40/40] fix: the row offset of a task is computed without
 wrapping at 2^32 values

---
 libman/task_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..5f913df 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -136,7 +136,7 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
             // TODO: Make better for when there are only
             //  a few left rows if we give away a task
-            task* t = new task(&(get_data_ptr()[curr_rid*ncol]),
+            task* t = new task(&(get_data_ptr()[(size_t)curr_rid*ncol]),
                 get_start_rid()+curr_rid);
             if ((curr_rid + MIN_TASK_ROWS) < (get_nrow()-1)) {
                 t->set_nrow(MIN_TASK_ROWS);
-- 
2.43.0

