From b047440f6c3d419d7eb6c792862f21a635a6babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 001/108] fix: wait for the task counter in a loop

A spurious wake-up of the condition variable ended the wait before all
tasks of the call were computed.
---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 338b106e0e2c86800c1721a682ab7e0fe0256a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 002/108] fix: wake up writers of a full task queue

Removing an item from a full queue signalled the readers' condition
variable, a writer blocked in taskq_enqueue was never woken up.
---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From 08741d5baa82f775eff7ae5a1cf4fd60400b3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 003/108] fix: stop workers with a message and release worker
 schedulers

---
 src/workers/entry.c     |  1 +
 src/workers/scheduler.h |  2 +-
 src/workers/workers.c   | 45 +++++++++++++++++++++++++++++++----------
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..f1a59df 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -54,18 +54,20 @@ typedef struct armas_ac_sched_workers {
     pthread_t tid;
     unsigned int options;
     unsigned int nworker;
+    unsigned int nqueue;
     unsigned int rrindex;
     unsigned int status;
     unsigned int nsched;
 } armas_scheduler_t;
 
 static inline
-void worker_init(
+int worker_init(
     armas_ac_worker_t *W, unsigned long id, unsigned int sz, struct armas_ac_sched_workers *sched)
 {
     W->id = id;
     W->cpuid = -1;
-    taskq_init(&W->inqueue, sz);
+    if (taskq_init(&W->inqueue, sz) < 0)
+        return -ARMAS_EMEMORY;
     W->running = 0;
     W->tid = 0;
     W->nsched = 0;
@@ -73,6 +75,7 @@ void worker_init(
     W->sched = (struct armas_ac_scheduler *)sched;
     W->cmem = 0;
     W->l1mem = 0;
+    return 0;
 }
 
 static
@@ -83,11 +86,11 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
-    while (W->running) {
+    while (1) {
         taskq_read(&W->inqueue, (void **)&T);
+        // null task is request to stop
         if (!T) {
-            continue;
+            break;
         }
         W->nsched++;
 
@@ -110,10 +113,12 @@ void *worker_thread(void *arg)
 }
 
 static
-void worker_start(struct armas_ac_worker *W)
+int worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
-    pthread_create(&W->tid, NULL, worker_thread, W);
+    if (pthread_create(&W->tid, NULL, worker_thread, W) != 0)
+        return -1;
+    W->running = 1;
     if (W->cpuid != -1) {
         // set cpu affinity
         CPU_ZERO(&cpuset);
@@ -121,7 +126,7 @@ void worker_start(struct armas_ac_worker *W)
         //printf(".. set worker %d affinity to cpu %d\n", W->id, W->cpuid);
         pthread_setaffinity_np(W->tid, sizeof(cpuset), &cpuset);
     }
-    return;
+    return 0;
 }
 
 static inline
@@ -156,7 +161,12 @@ int sched_workers_start(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     for (int i = 0; i < sched->nworker; i++) {
-        worker_start(&sched->workers[i]);
+        if (worker_start(&sched->workers[i]) < 0) {
+            if (i == 0)
+                return -1;
+            // use only the started workers
+            sched->nworker = i;
+        }
     }
     sched->status = 1;
     return 0;
@@ -166,6 +176,8 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    if (!sched->status)
+        return 0;
     for (int i = 0; i < sched->nworker; i++) {
         sched->workers[i].running = 0;
         taskq_write(&sched->workers[i].inqueue, NULL);
@@ -183,6 +195,9 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nqueue; i++) {
+        taskq_release(&sched->workers[i].inqueue);
+    }
     free(sched);
     return 0;
 }
@@ -195,7 +210,8 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     if (!sched->status) {
-        armas_sched_start(sc);
+        if (armas_sched_start(sc) < 0)
+            return -1;
     }
 
     // scheduling ARMAS_SCHED_WORKERS, write directly to worker queues.
@@ -265,7 +281,14 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-        worker_init(&sc->workers[i], i+1, qlen, sc);
+        if (worker_init(&sc->workers[i], i+1, qlen, sc) < 0) {
+            for (; i > 0; i--) {
+                taskq_release(&sc->workers[i-1].inqueue);
+            }
+            free(sc);
+            return -ARMAS_EMEMORY;
+        }
+        sc->nqueue++;
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
         sc->workers[i].cpuid = last_cpu;
-- 
2.43.0


From bbdaf4507b228e370800deb091cceb137c1c92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 004/108] fix: do not lose tasks when a transient worker is
 exiting

---
 src/workers/transient.c | 53 +++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..b06cca5 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,16 +29,13 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
-
 struct armas_ac_sched_transient;
 
 struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
     int running;
+    int started;
 };
 
 struct armas_ac_sched_transient {
@@ -49,6 +46,7 @@ struct armas_ac_sched_transient {
     size_t nworker;
     size_t nrunning;
     unsigned int status;
+    pthread_mutex_t lock;   // protects thread states and nrunning
 };
 
 static
@@ -61,17 +59,23 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
-            break;
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+            // decide to exit only when no new task can appear
+            pthread_mutex_lock(&sc->lock);
+            if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+                self->running = 0;
+                sc->nrunning--;
+                pthread_mutex_unlock(&sc->lock);
+                break;
+            }
+            pthread_mutex_unlock(&sc->lock);
+        }
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -86,6 +90,14 @@ int sched_transient_start(struct armas_ac_scheduler *sc)
 static
 int sched_transient_stop(struct armas_ac_scheduler *sc)
 {
+    struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
+    // running threads exit when the task queue is empty
+    for (unsigned int k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].started) {
+            pthread_join(sched->threads[k].tid, (void **)0);
+            sched->threads[k].started = 0;
+        }
+    }
     return 0;
 }
 
@@ -97,6 +109,7 @@ int sched_transient_release(struct armas_ac_scheduler *sc)
         return -ARMAS_EINVAL;
 
     taskq_release(&sched->task_queue);
+    pthread_mutex_destroy(&sched->lock);
     free(sched);
     return 0;
 }
@@ -109,14 +122,29 @@ int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
+    pthread_mutex_lock(&sched->lock);
     if (sched->nrunning < sched->nworker) {
         for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
-        sched->threads[k].running = 1;
+        if (sched->threads[k].started) {
+            pthread_join(sched->threads[k].tid, (void **)0);
+            sched->threads[k].started = 0;
+        }
         sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        if (pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]) == 0) {
+            sched->threads[k].running = 1;
+            sched->threads[k].started = 1;
+            sched->nrunning++;
+        }
+    }
+    if (sched->nrunning == 0) {
+        // no thread to execute queued tasks
+        while (taskq_dequeue_nowait(&sched->task_queue, (void **)&task, 1) == 0) {
+            (task->func)(task->args);
+            armas_counter_decrement(task->ready);
+        }
     }
+    pthread_mutex_unlock(&sched->lock);
     return 0;
 }
 
@@ -147,6 +175,7 @@ int armas_ac_sched_transient_init(struct armas_ac_scheduler **scheduler, int qle
     sc->nworker = env->max_cores;
     sc->nrunning = 0;
     sc->options = env->options;
+    pthread_mutex_init(&sc->lock, NULL);
 
     sc->sched.vptr = &ops;
     *scheduler = (struct armas_ac_scheduler *)sc;
-- 
2.43.0


From 82e261adfc303af406a3fa093f423729b74508ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 005/108] fix: wait until workers have released all tasks

---
 src/workers/workers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..b609487 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -41,13 +41,15 @@ static inline
 int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
     int refcount;
-    for (int k = 0; k < 50; k++) {
+    while (1) {
         refcount = 0;
         for (int i = 0; i < ntask; i++) {
-            refcount += tasks[i].task.wcnt;
+            refcount += __sync_fetch_and_add(&tasks[i].task.wcnt, 0);
         }
         if (refcount == 0)
             break;
+        // a worker still holds a reference to some task
+        sched_yield();
     }
     return refcount;
 }
-- 
2.43.0


From 7c04fde9f68a493d4da2c4f8da5f8fdfe940bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 006/108] fix: execute tasks that cannot be scheduled, report
 task errors

---
 src/workers/gemm.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..8246dee 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -78,6 +78,10 @@ void *compute_block(void *argptr)
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
+    if (!cbuf) {
+        args->error = ARMAS_EMEMORY;
+        return (void *)0;
+    }
     armas_env_t *env = armas_getenv();
     armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
@@ -133,7 +137,11 @@ void schedule_blocks(
         blkargs->is_last = k + 1 == ntask;
 
         armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-        armas_sched_schedule(scheduler, &tasks[k]);
+        if (armas_sched_schedule(scheduler, &tasks[k]) < 0) {
+            // not accepted, execute here
+            compute_block(blkargs);
+            armas_counter_decrement(ready);
+        }
     }
 }
 
@@ -171,7 +179,11 @@ void schedule_tiles(
             blkargs->block_index = k;
             blkargs->is_last = k + 1 == ntask;
             armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-            armas_sched_schedule(scheduler, &tasks[k]);
+            if (armas_sched_schedule(scheduler, &tasks[k]) < 0) {
+                // not accepted, execute here
+                compute_block(blkargs);
+                armas_counter_decrement(ready);
+            }
             k++;
         }
     }
@@ -220,9 +232,17 @@ int armas_ac_workers_mult(
     // verify that task worker count is zero on all tasks
     int refcnt = worker_all_ready(tasks, ntask);
     assert(refcnt == 0);
+    // pick up errors from tasks
+    int err = 0;
+    for (size_t k = 0; k < ntask; k++) {
+        if (tasks[k].args.error)
+            err = tasks[k].args.error;
+    }
     // release task memory
     free(tasks);
-    return 0;
+    if (err)
+        cf->error = err;
+    return -err;
 }
 #else
 #warning "Missing defines. No code!"
-- 
2.43.0


From 41a48a73a56eef4d9abdb2a9b37cade7b57050e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 007/108] fix: report errors of threaded computation and
 release thread buffers

---
 src/threaded/gemm.c | 9 +++++++++
 src/threaded/symm.c | 6 ++++++
 src/threaded/trmm.c | 6 ++++++
 src/threaded/trsm.c | 6 ++++++
 4 files changed, 27 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..d5c750b 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -86,6 +86,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
@@ -123,6 +126,8 @@ int threaded_mult_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
@@ -136,6 +141,10 @@ int threaded_mult_recursive(
 
     //printf("wait thread %d\n", thread);
     pthread_join(th, NULL);
+    if (!err && args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..e750d70 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -119,6 +119,8 @@ int threaded_mult_sym_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
@@ -131,6 +133,10 @@ int threaded_mult_sym_recursive(
     err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (!err && args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..5545470 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -101,6 +101,8 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
@@ -112,6 +114,10 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (!err && args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..9561330 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -101,6 +101,8 @@ int threaded_solve_trm_recursive(
     /* last block directly in main thread. */
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
@@ -112,6 +114,10 @@ int threaded_solve_trm_recursive(
     err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (!err && args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
-- 
2.43.0


From 633578678f75a46ed7399a0057b78cb4cec53b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 008/108] fix: no empty blocks when splitting the cache buffer

---
 src/base/cache.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..eca1459 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -168,6 +168,30 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
  *
  *  assume: kb >= nb; nb >= mb
  */
+/*
+ * Ensure that blocks are never empty, that no block is wider than it is high and that
+ * blocks fit to the buffer when there is one block of m columns and 'nblk' blocks of n columns.
+ */
+static
+void adjust_split(size_t *m, size_t *n, size_t *k, size_t nblk, size_t S, size_t clp)
+{
+    if (*k < clp)
+        *k = clp;
+    if (*m < 4)
+        *m = 4;
+    if (*n < 4)
+        *n = 4;
+    while (1) {
+        if (*m > *k)
+            *m = *k & ~0x3;
+        if (*n > *k)
+            *n = *k & ~0x3;
+        if (*k <= clp || (*m + nblk*(*n))*(*k) <= S)
+            break;
+        *k -= clp;
+    }
+}
+
 /**
  * @brief Two way split of cache buffer.
  *
@@ -213,6 +237,7 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        adjust_split(&mn, &nn, &kn, 1, S, clp);
     }
     *mb = mn;
     *nb = nn;
@@ -334,6 +359,7 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        adjust_split(&mn, &nn, &kn, 2, S, clp);
     }
     *mb = mn;
     *nb = nn;
-- 
2.43.0


From 1b20ae0e9cfe142cf6d0970b1265878400f4dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 009/108] fix: limit diagonal block of symmetric matrix to the
 size of its copy

---
 src/blas/symm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..4bbb571 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -220,6 +220,9 @@ void armas_mult_symm_right(
 
     int mb = C->rows < mcache->MB ? C->rows : mcache->MB;
     int nb = C->cols < mcache->NB ? C->cols : mcache->NB;
+    // diagonal block of A is copied to Acpy which has only MB columns
+    if (nb > mcache->MB)
+        nb = mcache->MB;
     for (ic = 0; ic < C->cols; ic += nb) {
         nC = C->cols - ic < nb ? C->cols - ic : nb;
 
-- 
2.43.0


From 24468570bd3358755e6109da15de998b096d5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 010/108] fix: scaling in recursive triangular solver

---
 src/blas/trsm_rec.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..1a262f5 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 12ad716f7eb3dd713be8536ab2ccceba0e5c4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 011/108] fix: release cache buffer in triangular solver

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From 1862a91d0f705f935a4bce4a1d3c3dd0f9bdf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 012/108] fix: read configuration once and without modifying
 the environment

---
 src/base/accel.c | 24 ++++++++++++++++++------
 src/base/env.c   | 25 ++++++++++++++-----------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..5e24090 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -11,6 +11,8 @@
 #include <stdio.h>
 #include <ctype.h>
 #include <sched.h>
+#include <stdlib.h>
+#include <pthread.h>
 
 #include "armas.h"
 #include "accel.h"
@@ -194,6 +196,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
                 ;
                 *s1 = '\0';
                 step = strtol(s1 + 1, NULL, 10);
+                if (step < 1)
+                    step = 1;
             }
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
@@ -217,8 +221,12 @@ void armas_ac_read_env(struct armas_ac_env *env)
     int n, val;
     char *tok, *cstr;
 
+    const char *config = getenv(ENV_ARMAS_AC_CONFIG);
+    // parse local copy, strsep() modifies its argument
+    char config_copy[config ? strlen(config) + 1 : 1];
+
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
-    cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    cstr = config ? strcpy(config_copy, config) : (char *)0;
     CPU_ZERO(&env->cpus);
 
     /* parse string:
@@ -253,16 +261,20 @@ static struct armas_ac_env env = {
     .options = 0,
 };
 
+static pthread_once_t env_once = PTHREAD_ONCE_INIT;
+
+static
+void read_env_once()
+{
+    armas_ac_read_env(&env);
+}
+
 /**
  * @brief Get accelerator environment.
  */
 struct armas_ac_env *armas_ac_getenv()
 {
-    static int initialized = 0;
-    if (!initialized) {
-        armas_ac_read_env(&env);
-        initialized = 1;
-    }
+    pthread_once(&env_once, read_env_once);
     return &env;
 }
 //! @}
diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..86ff376 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <pthread.h>
 
 #include "armas.h"
 
@@ -23,6 +24,8 @@
 #define CMEMSIZE 256*1024L
 #define CMEM_MIN 4096
 #define L1MEM_MIN 1024
+// recursive functions split anything not smaller than the minimum
+#define BLAS2_MIN 2
 
 static struct armas_env __env_config = {
     .mb = 64,             // MB (row count)
@@ -50,7 +53,7 @@ static struct armas_conf __default_conf = {
     .residual = 0.0       // last residual computed (output)
 };
 
-static int has_read_environment = 0;
+static pthread_once_t env_once = PTHREAD_ONCE_INIT;
 
 
 #ifndef ENV_ARMAS_CONFIG
@@ -68,11 +71,13 @@ void armas_read_environment()
 {
     char *cstr, *tok;
     int n, val;
+    const char *config = getenv(ENV_ARMAS_CONFIG);
+    const char *memory = getenv(ENV_ARMAS_CACHE);
+    // parse local copies, strsep() modifies its argument
+    char config_copy[config ? strlen(config) + 1 : 1];
+    char memory_copy[memory ? strlen(memory) + 1 : 1];
 
-    if (has_read_environment)
-        return;
-
-    cstr = getenv(ENV_ARMAS_CONFIG);
+    cstr = config ? strcpy(config_copy, config) : (char *)0;
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         val = atoi(tok);
@@ -99,7 +104,7 @@ void armas_read_environment()
             break;
         case 5:
             if (val > 0)
-                __env_config.blas2min = val;
+                __env_config.blas2min = val < BLAS2_MIN ? BLAS2_MIN : val;
             break;
         case 6:
         default:
@@ -109,7 +114,7 @@ void armas_read_environment()
     }
 
     // get cache memory size; L2MEM,L1MEM
-    cstr = getenv(ENV_ARMAS_CACHE);
+    cstr = memory ? strcpy(memory_copy, memory) : (char *)0;
     if (cstr) {
         char *endptr;
         size_t val;
@@ -140,8 +145,6 @@ void armas_read_environment()
             }
         }
     }
-
-    has_read_environment = 1;
 }
 
 /**
@@ -151,7 +154,7 @@ void armas_read_environment()
  */
 struct armas_env *armas_getenv()
 {
-    armas_read_environment();
+    pthread_once(&env_once, armas_read_environment);
     return &__env_config;
 }
 
@@ -163,7 +166,7 @@ struct armas_env *armas_getenv()
  */
 struct armas_conf *armas_conf_default()
 {
-    armas_read_environment();
+    pthread_once(&env_once, armas_read_environment);
     return &__default_conf;
 }
 
-- 
2.43.0


From 7370ea9ccdb2d7b47c0be7eb9eb72063bdbdc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 013/108] fix: overflow when computing start index of a block

---
 src/include/accel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/accel.h b/src/include/accel.h
index 0a039db..ea7e3a1 100644
--- a/src/include/accel.h
+++ b/src/include/accel.h
@@ -99,7 +99,9 @@ int armas_ac_block_index(int n, int nblocks, int ntotal)
 {
     if (n == nblocks)
         return ntotal;
-    return (n*ntotal/nblocks) - ((n*ntotal/nblocks) & 0x3);
+    // product may not fit to an int
+    int k = (int)((int64_t)n*ntotal/nblocks);
+    return k - (k & 0x3);
 }
 
 #ifdef ARMAS_DTYPE_H
-- 
2.43.0


From 7a2b332747abada83bc97531659d152bafe36a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 014/108] fix: scaling by zero must overwrite vector contents

axpby with zero beta and scaling of a vector by zero multiplied the old
contents, so uninitialized workspace holding NaN or Inf leaked into results.
---
 src/blas/axpy.c   | 6 ++++++
 src/blas/mscale.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/blas/axpy.c b/src/blas/axpy.c
index 10d3f28..2423436 100644
--- a/src/blas/axpy.c
+++ b/src/blas/axpy.c
@@ -39,6 +39,12 @@ void armas_axpby_unsafe(
     int yinc = y->rows == 1 ? y->step : 1;
     int xinc = x->rows == 1 ? x->step : 1;
 
+    // old contents of y is not referenced
+    if (beta == ZERO) {
+        for (i = 0; i < N; i++)
+            y->elems[i*yinc] = alpha*x->elems[i*xinc];
+        return;
+    }
     for (i = 0; i < N-3; i += 4) {
         y0 = y->elems[(i+0)*yinc] * beta;
         y1 = y->elems[(i+1)*yinc] * beta;
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..1633f13 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -34,6 +34,12 @@ void vec_scale(armas_dense_t *X,  const DTYPE alpha, int N)
     register DTYPE *x0;
     register int xinc = X->rows == 1 ? X->step : 1;
 
+    // set to zero
+    if (alpha == ZERO) {
+        for (i = 0; i < N; i++)
+            X->elems[i*xinc] = ZERO;
+        return;
+    }
     for (i = 0; i < N-3; i += 4) {
         X->elems[(i+0)*xinc] *= alpha;
         X->elems[(i+1)*xinc] *= alpha;
-- 
2.43.0


From 89e5763f751938d8967ae61e0a84eb649952484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 015/108] fix: order of solves and pivoting in transposed LU
 solve

A^T X = B needs U^-T first, then L^-T, and the row interchanges last.
---
 src/lapack/lu.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..fa09bcd 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -351,18 +351,20 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; A = P.T*L*U; X = A.-T*B == P.T*(L.-T*(U.-T*B))
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From fa123528a4322268c08abc063791427d2a1c3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 016/108] fix: size of upper right block in recursive
 triangular update

---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..8721fd4 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From ec00a0c626ebb14420d6a2149a78ac1e5cf5e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 017/108] fix: terminate recursive rank-2k update with minimum
 block size one

---
 src/blas/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..f26807e 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
-- 
2.43.0


From e9e27a9e4b2a7ae96f8e93b426c91ebec59a6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 018/108] fix: split trapezoidal matrix on its diagonal in rank
 update

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..e0ecf56 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -76,6 +76,8 @@ void update_trmv_recursive(
 {
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
+    // trapezoidal matrix is split on its diagonal
+    int nb = (A->rows < A->cols ? A->rows : A->cols) / 2;
 
     if (min_mvec_size <= 0 ||
         A->rows < min_mvec_size || A->cols < min_mvec_size) {
@@ -85,13 +87,13 @@ void update_trmv_recursive(
 
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, nb, nb, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, nb, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, nb, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From 393cf7b841fe5b68e2a8996a7060b2c78a2c7cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 019/108] fix: scaling and sizes in multiplication and solving
 with diagonal matrix

---
 src/lapack/diag.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..d8709eb 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,13 +64,9 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
-        if (armas_size(A) == 0)
-            return 0;
+    // element-wise if A is vector of the same size; otherwise a matrix with
+    // one row or one column
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         for (k = 0; k < armas_size(d); k++) {
             DTYPE aval =
                 armas_get_at_unsafe(A, k) * armas_get_at_unsafe(d, k);
@@ -147,13 +143,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
-        if (armas_size(A) == 0)
-            return 0;
+    // element-wise if A is vector of the same size; otherwise a matrix with
+    // one row or one column
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         for (k = 0; k < armas_size(d); k++) {
             DTYPE aval =
                 armas_get_at_unsafe(A, k) / armas_get_at_unsafe(d, k);
@@ -172,9 +164,8 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha / armas_get_at_unsafe(d, k), conf);
         }
         break;
     case ARMAS_LEFT:
@@ -187,9 +178,8 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha / armas_get_at_unsafe(d, k), conf);
         }
         break;
     }
-- 
2.43.0


From 40e61a9f2621ac9cb5767c0c930e5a351b88fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 020/108] fix: blocked Bunch-Kaufman factorization needs blocks
 of at least four columns

---
 src/lapack/ldlbk.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..ebbf9e9 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -152,6 +152,10 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         }
     }
 
+    // blocked code needs room for 2x2 pivot and for its inverse
+    if (lb < 4)
+        lb = 0;
+
     wpos = armas_wpos(wb);
 
     // clear pivots
-- 
2.43.0


From 4f76f4d1b54c46d03a593b13d5bbb5d0431e71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 021/108] fix: clear entries of block reflector for zero
 coefficients

---
 src/lapack/hess.c | 2 ++
 src/lapack/lq.c   | 3 +++
 src/lapack/ql.c   | 3 +++
 src/lapack/qr.c   | 3 +++
 src/lapack/qrt.c  | 2 ++
 src/lapack/rq.c   | 3 +++
 6 files changed, 16 insertions(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..6b4c94a 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,8 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..44e3e80 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -274,6 +274,9 @@ int armas_unblk_lq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 2a34ede..39c0642 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -317,6 +317,9 @@ int armas_unblk_ql_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t21 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t21, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index af18514..7b1ab0b 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -300,6 +300,9 @@ int armas_unblk_qr_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..f5f3413 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -73,6 +73,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                            -tauval, &A22, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5150488..5196a7f 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -318,6 +318,9 @@ int armas_unblk_rq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t21, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 5a1221a5c19965958463fe98638665662ed2ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 022/108] fix: select blocked generation of LQ and RQ factors
 by number of rows

---
 src/lapack/lqbld.c | 2 +-
 src/lapack/rqbld.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..2c90068 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..3b83b90 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From 9279721b173486058c75a951e61e1d03c49b584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 023/108] fix: scale target of matrix products with empty inner
 dimension

---
 src/blas/gemm.c | 8 +++++++-
 src/blas/gemv.c | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemm.c b/src/blas/gemm.c
index f4e8a74..ed84840 100644
--- a/src/blas/gemm.c
+++ b/src/blas/gemm.c
@@ -65,8 +65,14 @@ int armas_mult(
 {
     int ok;
 
-    if (armas_size(A) == 0 || armas_size(B) == 0 || armas_size(C) == 0)
+    if (armas_size(A) == 0 || armas_size(B) == 0 || armas_size(C) == 0) {
+        // empty product; C = beta * C
+        int m = (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) ? A->cols : A->rows;
+        int n = (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) ? B->rows : B->cols;
+        if (armas_size(C) > 0 && C->rows == m && C->cols == n)
+            return armas_mscale(C, beta, 0, conf);
         return  0;
+    }
 
     require(A->step >= A->rows && B->step >= B->rows && C->step >= C->rows);
 
diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..343fb53 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -287,8 +287,12 @@ int armas_mvmult(
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(A) == 0 || armas_size(x) == 0 || armas_size(y) == 0)
+    if (armas_size(A) == 0 || armas_size(x) == 0 || armas_size(y) == 0) {
+        // empty product; Y = beta * Y
+        if (ny > 0 && ny == (flags & ARMAS_TRANS ? A->cols : A->rows))
+            return armas_scale(y, beta, conf);
         return 0;
+    }
 
     if (!(armas_isvector(x) && armas_isvector(y))) {
         conf->error = ARMAS_ENEED_VECTOR;
-- 
2.43.0


From 11b5c624520cacf3cfa28747b57254f9b65c76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 024/108] fix: workspace requirement of lqsolve

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From d3774e7436c2597d7b7e8f2caf8a54a1ad7eae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 025/108] fix: block reflectors of qrtfactor

---
 src/lapack/qrt.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index f5f3413..dedf198 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,9 +68,9 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
         } else {
@@ -109,7 +109,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
@@ -255,7 +255,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From aab109d3a40bd665264c6dba6783b415c9c57ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 026/108] fix: workspace query and small workspace in housemult

---
 src/lapack/housem.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..809f602 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -69,7 +69,7 @@ void hmult_left(armas_dense_t * X, armas_dense_t * tau, armas_dense_t * P,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->cols == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = H(m-1)*...H(1)*H(0)*x
@@ -188,7 +188,7 @@ void hmult_right(armas_dense_t * X, armas_dense_t * tau,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->rows == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = x*H(m-1)*...H(1)*H(0)
@@ -316,13 +316,17 @@ int armas_housemult_w(armas_dense_t * X,
     if (!cf)
         cf = armas_conf_default();
 
-    if (!wb && !armas_isvector(X)) {
+    // workspace is not needed if X is vector
+    int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
+    if (nelem == 1)
+        nelem = 0;
+
+    if (!wb && nelem > 0) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
+    if (wb && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -344,9 +348,12 @@ int armas_housemult_w(armas_dense_t * X,
     size_t wpos = armas_wpos(wb);
     armas_dense_t w, *wptr;
     wptr = __nil;
-    if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+    if (nelem > 0) {
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
+        if (!t) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
     }
@@ -372,14 +379,14 @@ int armas_housemult(armas_dense_t * X,
 {
     if (!cf)
         cf = armas_conf_default();
-    if (armas_isvector(X)) {
-        return armas_housemult_w(X, tau, Q, flags, (armas_wbuf_t *) 0, cf);
-    }
     int err;
     armas_wbuf_t wb = ARMAS_WBNULL;
     if ((err = armas_housemult_w(X, tau, Q, flags, &wb, cf)) < 0)
         return err;
 
+    if (wb.bytes == 0)
+        return armas_housemult_w(X, tau, Q, flags, ARMAS_NOWORK, cf);
+
     if (!armas_walloc(&wb, wb.bytes)) {
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
-- 
2.43.0


From 6833854d904910a34ed361cc817f30670a2a712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 027/108] fix: operand ranges in extended precision symmetric
 updates

---
 src/eblas/syr2_ext.c | 4 ++--
 src/eblas/syr_ext.c  | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..69a618c 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
@@ -148,7 +148,7 @@ int armas_ext_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || A->cols != nx || ny != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..637be90 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,7 +38,7 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, v0;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
@@ -46,7 +46,8 @@ int armas_ext_mvupdate_trm_unsafe(
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
             xk = armas_get_at(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_subvector_unsafe(&v0, Y, i, A->cols-i);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     case ARMAS_LOWER:
@@ -55,7 +56,8 @@ int armas_ext_mvupdate_trm_unsafe(
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
             xk = armas_get_at(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_subvector_unsafe(&v0, X, j, A->rows-j);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     }
-- 
2.43.0


From ce807d5b9e38ad1214e39f1ad6c67b1a87024ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 028/108] fix: fixed cache block sizes are never zero

---
 src/base/cache.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index eca1459..1f5da90 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -254,6 +254,8 @@ static
 int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
+    mb = mb < 4 ? 4 : mb & ~0x3;
+    nb = nb < 4 ? 4 : nb & ~0x3;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
     if (bytes > cbuf->cmem) {
         return -1;
@@ -262,8 +264,6 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
         kb -= kb % (CACHELINE/p);
     if (kb < 4)
         kb = 4;
-    mb &= ~0x3;
-    nb &= ~0x3;
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
@@ -381,6 +381,8 @@ static
 int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
+    mb = mb < 4 ? 4 : mb & ~0x3;
+    nb = nb < 4 ? 4 : nb & ~0x3;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
     if (bytes > cbuf->cmem) {
         return -1;
@@ -389,8 +391,6 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
         kb -= kb % (CACHELINE/p);
     if (kb < 4)
         kb = 4;
-    mb &= ~0x3;
-    nb &= ~0x3;
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
-- 
2.43.0


From b2ba6aba16bc59f6a10048300abf46ede3106b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 029/108] fix: keep operand copies within cache buffer in
 extended precision products

---
 src/eblas/symm_ext.c | 6 +++---
 src/eblas/trmm_ext.c | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..f4d63e6 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -48,17 +48,17 @@ void mult_ext_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_ext_mult_inner(C, dC, alpha, &Bcpy, &Acpy, cache->rb);
diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..78bdab3 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -782,11 +782,10 @@ int armas_ext_mult_trm(
 
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
+    // copies of diagonal and panel blocks must fit to the cache buffer
+    if (cache.NB > cache.MB)
+        cache.NB = cache.MB;
 
-    if (cf->optflags & ARMAS_ONAIVE) {
-        trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
-        return 0;
-    }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
     armas_cbuf_release(&cbuf);
     return 0;
-- 
2.43.0


From 7d5787d18ffe0c85140fbfbc750fe38c698232a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 030/108] fix: workspace and panel handling in extended
 precision triangular solver

---
 src/eblas/trsm_ext.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..9fdcdd6 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -154,7 +154,7 @@ void solve_ext_blk_lu_llt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = (flags & ARMAS_UPPER) != 0 ? 1 : 0;
     int mflags = (flags & ARMAS_TRANS) != 0 ? ARMAS_TRANSA : 0;
-    int NB = dB->cols;
+    int NB = cache->NB;
 
     nI = A->cols < NB ? A->cols : NB;
     cI = A->cols < NB ? 0 : A->cols-NB;
@@ -185,7 +185,6 @@ void solve_ext_blk_lu_llt(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lu_llt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -325,7 +324,6 @@ void solve_ext_blk_lut_ll(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lut_ll(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -384,7 +382,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
@@ -462,7 +460,6 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
 }
 
 /*
@@ -570,7 +567,7 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
+    int mflags = flags & ARMAS_TRANS ? ARMAS_TRANSB : 0;
     int NB = cache->NB;
 
     nI = A->cols < NB ? A->cols : NB;
@@ -603,7 +600,6 @@ void solve_ext_blk_rut_rl(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_rut_rl(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -636,10 +632,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, dB->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -698,10 +694,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -804,19 +800,30 @@ int armas_ext_solve_trm_w(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
+    // copies of diagonal and panel blocks must fit to the cache buffer
+    if (cache.NB > cache.MB)
+        cache.NB = cache.MB;
+
     if (wb->bytes == 0) {
+        armas_cbuf_release(&cbuf);
         wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
         return 0;
     }
-    int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
-    if (ncol < 4) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+    int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
+    if (ncol < min(A->cols, 4)) {
+        armas_cbuf_release(&cbuf);
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     if (ncol > cache.NB)
         ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    if (flags & ARMAS_RIGHT) {
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    } else {
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    }
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From b0b0a4c04464c02f7924eb687a16b4c94e4680e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 031/108] fix: two by two symmetric eigenproblem without
 division by zero or cancellation

---
 src/lapack/aux.c | 57 +++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index f05dfae..9dbfbb0 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -328,7 +328,7 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
  */
 void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
 {
-    DTYPE T, b2a, amca, Zt, acmax, acmin;
+    DTYPE T, b2a, amca, rt, acmax, acmin;
 
     acmax = a;
     acmin = c;
@@ -339,9 +339,14 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
     b2a = ABS(b + b);
     T = a + c;
     amca = ABS(a - c);
-    Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
-    *z1 = HALF * Zt;
-    *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
+    rt = HYPOT(amca, b2a);
+    if (T == ZERO) {
+        *z1 = HALF * rt;
+        *z2 = -HALF * rt;
+        return;
+    }
+    *z1 = HALF * (T + COPYSIGN(rt, T));
+    *z2 = (acmax / (*z1)) * acmin - (b / (*z1)) * b;
 }
 
 
@@ -370,25 +375,33 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
 void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
                              DTYPE * sn, DTYPE a, DTYPE b, DTYPE c)
 {
-    DTYPE T, b2a, amca, Zt, acmax, acmin, ht;
-
-    acmax = a;
-    acmin = c;
-    if (ABS(c) > ABS(a)) {
-        acmax = c;
-        acmin = a;
+    DTYPE b2, d, rt, t, x0, x1;
+
+    armas_sym_eigen2x2(z1, z2, a, b, c);
+
+    // Eigenvector of z1 without cancellation. Vector of eigenvalue closer to a is
+    // (d + sign(d)*rt, 2b), d = a - c; the other one is perpendicular to it.
+    b2 = b + b;
+    d = a - c;
+    rt = HYPOT(d, b2);
+    if (rt == ZERO) {
+        *cs = ONE;
+        *sn = ZERO;
+        return;
+    }
+    x0 = ABS(d) + rt;
+    x1 = SIGN(d) ? -b2 : b2;
+    t = HYPOT(x0, x1);
+    x0 /= t;
+    x1 /= t;
+    // (x0, x1) belongs to larger eigenvalue if d >= 0 and to smaller if d < 0
+    if ((*z1 >= *z2) == !SIGN(d)) {
+        *cs = x0;
+        *sn = x1;
+    } else {
+        *cs = -x1;
+        *sn = x0;
     }
-    b2a = ABS(b + b);
-    T = a + c;
-    amca = ABS(a - c);
-    Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
-    *z1 = HALF * Zt;
-    *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
-
-    // these should be thought out for cancellation effects....
-    ht = HYPOT(1.0, (*z1 - a) / b);
-    *cs = 1.0 / ht;
-    *sn = (*z1 - a) / (b * ht);
 }
 //! @}
 #else
-- 
2.43.0


From e0792ccce4af8d59040c2954bbafcb1817d6a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 032/108] fix: order of two by two eigenvalues, size checks and
 workspace of symmetric eigenvalue drivers

---
 src/lapack/evd.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..31c3335 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -47,6 +47,15 @@ int eigen_sym_small(armas_dense_t * D, armas_dense_t * A,
         b0 = armas_get_unsafe(A, 1, 0);
     }
     armas_sym_eigen2x2vec(&e0, &e1, &cs, &sn, d0, b0, d1);
+    if (e0 > e1) {
+        // first eigenvalue is the larger one; exchange to increasing order
+        DTYPE t = e0;
+        e0 = e1;
+        e1 = t;
+        t = cs;
+        cs = -sn;
+        sn = t;
+    }
     armas_set_at_unsafe(D, 0, e0);
     armas_set_at_unsafe(D, 1, e1);
 
@@ -147,7 +156,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -185,8 +194,10 @@ int armas_eigen_sym_w(armas_dense_t * D,
     armas_make(&tau, N, 1, N, buf);
 
     // reduce to tridiagonal form
-    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0)
+    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0) {
+        armas_wsetpos(wb, wpos);
         return -2;
+    }
 
     // copy diagonals
     armas_diag(&sD, A, 0);
@@ -196,16 +207,20 @@ int armas_eigen_sym_w(armas_dense_t * D,
 
     // if vectors required, build in A
     if (flags & ARMAS_WANTV) {
-        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0)
+        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0) {
+            armas_wsetpos(wb, wpos);
             return -3;
+        }
         vv = A;
     }
     // reset reservations workspace
     armas_wsetpos(wb, wpt);
 
     // compute eigenvalues/vectors of tridiagonal matrix
-    if (armas_trdeigen_w(D, &E, vv, flags, wb, conf) != 0)
+    if (armas_trdeigen_w(D, &E, vv, flags, wb, conf) != 0) {
+        armas_wsetpos(wb, wpos);
         return -4;
+    }
 
     armas_wsetpos(wb, wpos);
     return 0;
@@ -277,7 +292,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
                                  armas_wbuf_t * wb, armas_conf_t * conf)
 {
     armas_dense_t sD, sE, tau;
-    size_t wsz, wpos;
+    size_t wpos = 0;
     DTYPE *buf;
     int ioff, N, err;
 
@@ -290,9 +305,11 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     }
     N = A->rows;
     if (wb && wb->bytes == 0) {
-        if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
-            return err;
-        wb->bytes += N * sizeof(DTYPE);
+        if (N > 2) {
+            if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
+                return err;
+            wb->bytes += N * sizeof(DTYPE);
+        }
         return 0;
     }
 
@@ -301,7 +318,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
+    if (N > 2 && (!wb || armas_wbytes(wb) < 2 * N * sizeof(DTYPE))) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -309,10 +326,9 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     if (!(flags & (ARMAS_UPPER | ARMAS_LOWER)))
         flags |= ARMAS_LOWER;
 
-    wpos = armas_wpos(wb);
-
     ioff = flags & ARMAS_LOWER ? -1 : 1;
     if (N > 2) {
+        wpos = armas_wpos(wb);
         buf = (DTYPE *) armas_wreserve(wb, N, sizeof(DTYPE));
         armas_make(&tau, N, 1, N, buf);
 
@@ -321,12 +337,15 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
             armas_wsetpos(wb, wpos);
             return err;
         }
-
+        armas_wsetpos(wb, wpos);
     }
-    armas_wsetpos(wb, wpos);
 
     armas_diag(&sD, A, 0);
-    armas_diag(&sE, A, ioff);
+    if (N > 1) {
+        armas_diag(&sE, A, ioff);
+    } else {
+        EMPTY(sE);
+    }
 
     // compute selected eigenvalues
     if ((err =armas_trdbisect(D, &sD, &sE, params, conf)) < 0)
-- 
2.43.0


From 0248343da7484679180113e20a0dae24d2c9e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 033/108] fix: Sturm counts, bounds and single element matrices
 in bisection

---
 src/lapack/trdbis.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..3b14ca5 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -78,10 +78,16 @@ int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
 {
     int k, count = 0;
     DTYPE d = ONE, bim1 = ZERO;
+    int n = armas_size(D);
 
-    for (k = 0; k < armas_size(D); k++) {
-        d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
-        bim1 = armas_get_at_unsafe(E, k);
+    for (k = 0; k < n; k++) {
+        if (bim1 == ZERO) {
+            // no coupling to previous row; previous pivot may be zero
+            d = armas_get_at_unsafe(D, k) - x;
+        } else {
+            d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
+        }
+        bim1 = k < n - 1 ? armas_get_at_unsafe(E, k) : ZERO;
         count += signbit(d) ? 1 : 0;
     }
     return count;
@@ -99,9 +105,8 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
                            armas_dense_t * E)
 {
     int k, n = armas_size(D);
-    DTYPE gl, gu, di, ei, eim1, t, bnorm, pivmin;
+    DTYPE gl, gu, di, ei, eim1, t, bnorm;
     ei = ZERO;
-    pivmin = ONE;
     gl = gu = armas_get_at_unsafe(D, 0);
 
     eim1 = ZERO;
@@ -114,10 +119,7 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
         if (gu < di + t)
             gu = di + t;
         eim1 = ei;
-        if (ei * ei < pivmin)
-            pivmin = ei * ei;
     }
-    pivmin = SAFEMIN * pivmin;
     di = armas_get_at_unsafe(D, n - 1);
     if (gl > di - ei)
         gl = di - ei;
@@ -126,8 +128,8 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
 
     // widen the interval to ensure that all eigenvalues are included.
     bnorm = ABS(gl) > ABS(gu) ? ABS(gl) : ABS(gu);
-    *glow = gl - bnorm * (n * EPS) * 2.0 - 4.2 * pivmin;
-    *gup = gu + bnorm * (n * EPS) * 2.0 + 2.1 * pivmin;
+    *glow = gl - bnorm * (n * EPS) * 2.0 - 4.2 * SAFEMIN;
+    *gup = gu + bnorm * (n * EPS) * 2.0 + 2.1 * SAFEMIN;
 
 }
 
@@ -232,7 +234,7 @@ int armas_trdbisect(armas_dense_t * Y,
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(D) == 0 || armas_size(E) == 0)
+    if (armas_size(D) == 0)
         return 0;
 
     compute_gerschgorin(&gleft, &gright, D, E);
@@ -266,7 +268,7 @@ int armas_trdbisect(armas_dense_t * Y,
         if (isnan(eigen)) {
             return -1;
         }
-        armas_set_unsafe(Y, k, 0, eigen);
+        armas_set_at_unsafe(Y, k, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
     }
     return 0;
-- 
2.43.0


From c6710a595f510450859ad394d3547c2f7eca4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 034/108] fix: deflation test of the tridiagonal QR iteration

---
 src/lapack/trdevd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trdevd.c b/src/lapack/trdevd.c
index 045a9ed..a45b401 100644
--- a/src/lapack/trdevd.c
+++ b/src/lapack/trdevd.c
@@ -66,7 +66,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             e1 = ABS(armas_get_at_unsafe(E, k - 1));
             d1 = ABS(armas_get_at_unsafe(D, k - 1));
-            if (e1 < tol * (d0 + d1)) {
+            if (e1 <= tol * (d0 + d1)) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom value;
-- 
2.43.0


From d95142f4b30b0a45684a70040fdbd5a129e857e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 035/108] fix: convergence thresholds of the Demmel-Kahan
 iteration

---
 src/lapack/bdsvd_dk.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 6def402..a1c16be 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -145,11 +145,11 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
     estimate_sval(&slow, &shigh, D, E);
     if (conf->optflags & ARMAS_OABSTOL) {
         threshold = maxit * SAFEMIN;
-        if (tol * shigh < threshold)
+        if (tol * shigh > threshold)
             threshold = tol * shigh;
     } else {
         threshold = tol * slow;
-        if (maxit * SAFEMIN < threshold)
+        if (maxit * SAFEMIN > threshold)
             threshold = maxit * SAFEMIN;
     }
 
@@ -179,7 +179,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             d0 = ABS(armas_get_at_unsafe(D, k - 1));
             e0 = ABS(armas_get_at_unsafe(E, k - 1));
-            if (e0 < threshold) {
+            if (e0 <= threshold) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom singular value
@@ -244,7 +244,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             e0 = ABS(armas_get_at_unsafe(E, iq - 2));
             d0 = ABS(armas_get_at_unsafe(D, iq - 1));
             // this is the standard convergence test 
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, iq - 2, ZERO);
                 iq = iq - 1;
                 goto Next;
@@ -267,7 +267,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             // criterion 1a, 1b, 2b
             e0 = ABS(armas_get_at_unsafe(E, ip));
             d0 = ABS(armas_get_at_unsafe(D, ip));
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, ip, ZERO);
                 ip = ip + 1;
                 goto Next;
-- 
2.43.0


From 961c1871bbe0cbd56d3c02a5d889c8ef819dc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 036/108] fix: zero diagonal handling in Golub-Reinsch
 iteration

---
 src/lapack/bdsvd_gr.c | 62 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index f4f4572..732d137 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -113,6 +113,55 @@ DTYPE compute_bsvd_shift(DTYPE e, DTYPE f, DTYPE g, DTYPE h)
 
 
 
+/*
+ * \brief Clear off-diagonal entry next to zero on diagonal.
+ *
+ * If D[i] is zero then rotate row i with rows below it until all of the row is zero. If D[i]
+ * is last in the block then rotate last column with columns left of it.
+ */
+static
+void clear_zero_diagonal(armas_dense_t * D, armas_dense_t * E,
+                         armas_dense_t * U, armas_dense_t * V,
+                         int i, int ip, int iq)
+{
+    DTYPE f, c, s, r, e;
+    int k;
+
+    if (i < iq - 1) {
+        f = armas_get_at_unsafe(E, i);
+        armas_set_at_unsafe(E, i, ZERO);
+        for (k = i + 1; k < iq && f != ZERO; k++) {
+            armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, k), f);
+            armas_set_at_unsafe(D, k, r);
+            f = ZERO;
+            if (k < iq - 1) {
+                e = armas_get_at_unsafe(E, k);
+                f = -s * e;
+                armas_set_at_unsafe(E, k, c * e);
+            }
+            if (U) {
+                armas_gvright(U, c, s, k, i, 0, U->rows);
+            }
+        }
+        return;
+    }
+    f = armas_get_at_unsafe(E, i - 1);
+    armas_set_at_unsafe(E, i - 1, ZERO);
+    for (k = i - 1; k >= ip && f != ZERO; k--) {
+        armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, k), f);
+        armas_set_at_unsafe(D, k, r);
+        f = ZERO;
+        if (k > ip) {
+            e = armas_get_at_unsafe(E, k - 1);
+            f = -s * e;
+            armas_set_at_unsafe(E, k - 1, c * e);
+        }
+        if (V) {
+            armas_gvleft(V, c, s, k, i, 0, V->cols);
+        }
+    }
+}
+
 /*
  * Golub-Kahan-Reisch SVD algorithm as described in
  *  - Hogben, Handbook of Linear Algebra 2007, 45.2 algorithm 1b,1c
@@ -123,7 +172,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
     int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift;
+    DTYPE e0, e1, d0, d1, dp, ushift;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -152,7 +201,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
             d0 = armas_get_at_unsafe(D, i);
             d1 = armas_get_at_unsafe(D, i + 1);
             dp = ABS(d0) + ABS(d1);
-            if (ABS(e1) < tol * dp) {
+            if (ABS(e1) <= tol * dp) {
                 armas_set_at(E, i, 0.0);
             }
         }
@@ -167,13 +216,10 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         // from column iq already diagonal; work ip:iq
         zeros = 0;
         for (i = ip; i < iq; i++) {
-            d0 = armas_get_at(D, i);
-            if (d0 == 0.0) {
-                e1 = armas_get_at(E, i);
-                armas_gvcompute(&c, &s, &r, d0, e1);
-                armas_set_at_unsafe(D, i, r);
-                armas_set_at_unsafe(E, i, 0.0);
+            if (armas_get_at_unsafe(D, i) == ZERO) {
+                clear_zero_diagonal(D, E, U, V, i, ip, iq);
                 zeros = 1;
+                break;
             }
         }
         if (zeros)
-- 
2.43.0


From 56cfebfbb02648de1828458100a5cc5ba5b4ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 037/108] fix: signs of two by two bidiagonal singular values

---
 src/lapack/aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index 9dbfbb0..9d39c83 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -279,13 +279,13 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
         *sinr = clt;
         *cosl = srt;
         *sinl = crt;
-        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
+        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
     } else {
         *cosr = crt;
         *sinr = srt;
         *cosl = clt;
         *sinl = slt;
-        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
+        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
     }
     if (gmax)
         tsign = sign(ONE, *sinr) * sign(ONE, *cosl) * sign(ONE, g);
-- 
2.43.0


From 7513ed423d301fa68a187f6a71c95f7a00492a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 038/108] fix: workspace size, signs and error returns in
 singular value decomposition

---
 src/lapack/svd.c | 63 ++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..8512b2d 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -76,11 +76,15 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
         if (!(flags & (ARMAS_WANTU | ARMAS_WANTV)))
             return 0;
 
+        // sign of the only non-zero entry of the triangular factor is moved to 1-by-1 matrix
+        d0 = armas_get_unsafe(A, 0, 0) < ZERO ? -ONE : ONE;
         if (flags & ARMAS_WANTU) {
-            if (N == 1) {
+            if (M >= N) {
                 if (U->cols == A->cols) {
-                    armas_copy(U, A, conf);
-                    armas_qrbuild_w(U, &tau, N, wb, conf);
+                    armas_mcopy(U, A, 0, conf);
+                    err = armas_qrbuild_w(U, &tau, N, wb, conf);
+                    if (err < 0)
+                        return -ARMAS_ESVD_LEFT;
                 } else {
                     // U is M-by-M
                     armas_set_values(U, zeros, ARMAS_SYMM | ARMAS_UNIT);
@@ -90,14 +94,16 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 }
             } else {
                 // U is 1-by-1
-                armas_set_unsafe(U, 0, 0, -ONE);
+                armas_set_unsafe(U, 0, 0, d0);
             }
         }
         if (flags & ARMAS_WANTV) {
-            if (M == 1) {
+            if (N > M) {
                 if (V->rows == A->rows) {
-                    armas_copy(V, A, conf);
-                    armas_lqbuild_w(V, &tau, M, wb, conf);
+                    armas_mcopy(V, A, 0, conf);
+                    err = armas_lqbuild_w(V, &tau, M, wb, conf);
+                    if (err < 0)
+                        return -ARMAS_ESVD_RIGHT;
                 } else {
                     // V is N-by-N
                     armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
@@ -107,7 +113,7 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 }
             } else {
                 // V is 1-by-1
-                armas_set_unsafe(V, 0, 0, -ONE);
+                armas_set_unsafe(V, 0, 0, d0);
             }
         }
         return 0;
@@ -218,13 +224,6 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * N * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
-    }
-
     wsz = armas_wpos(wb);
 
     // 1. divide workspace
@@ -272,6 +271,7 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
@@ -347,13 +347,6 @@ int armas_svd_wide(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * M * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
-    }
-
     wsz = armas_wpos(wb);
     // 1. divide workspace
     buf = (DTYPE *) armas_wreserve(wb, M - 1, sizeof(DTYPE));
@@ -571,9 +564,9 @@ int armas_svd_w(armas_dense_t * S,
                   armas_dense_t * A,
                   int flags, armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    int err, tall;
-    armas_dense_t W;
+    int err, tall, P, K;
     armas_env_t *env;
+    size_t wpos;
 
     if (!conf)
         conf = armas_conf_default();
@@ -584,14 +577,15 @@ int armas_svd_w(armas_dense_t * S,
     }
 
     tall = A->rows >= A->cols;
+    P = IMIN(A->rows, A->cols);
+    K = A->rows + A->cols;
     env = armas_getenv();
     if (wb && wb->bytes == 0) {
-        int P = A->rows >= A->cols ? A->cols : A->rows;
-        int K = A->rows >= A->cols ? A->rows : A->cols;
-        if (P <= env->lb)
-            wb->bytes = 4 * P * sizeof(DTYPE);
+        // scalar reflector coefficients and space for reducing and for building U and V
+        if (env->lb > 0 && IMAX(A->rows, A->cols) > env->lb)
+            wb->bytes = (2 * P + (K + env->lb) * env->lb) * sizeof(DTYPE);
         else
-            wb->bytes = (K + env->lb) * env->lb * sizeof(DTYPE);
+            wb->bytes = (2 * P + K) * sizeof(DTYPE);
         return 0;
     }
 
@@ -658,8 +652,14 @@ int armas_svd_w(armas_dense_t * S,
         }
     }
 
-    int K = armas_wbytes(wb) / sizeof(DTYPE);
-    armas_make(&W, K, 1, K, armas_wptr(wb));
+    if (armas_wbytes(wb) < (2 * P + K) * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+    if (P == 0)
+        return 0;
+
+    wpos = armas_wpos(wb);
 
     if (tall) {
         if (A->cols <= 2) {
@@ -674,6 +674,7 @@ int armas_svd_w(armas_dense_t * S,
             err = armas_svd_wide(S, U, V, A, flags, wb, conf);
         }
     }
+    armas_wsetpos(wb, wpos);
     return err;
 }
 #else
-- 
2.43.0


From faa29f1ede67d129be9d584163855e2323f3bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 039/108] fix: read before the matrix for the last value in
 dqds

---
 src/lapack/dqds.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index e236838..3c40294 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -528,6 +528,11 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
 
     if (N <= 0)
         return 0;
+    if (N == 1) {
+        // last one, no off-diagonal entries
+        armas_set_unsafe(Z, 0, 0, armas_get_unsafe(Z, qrow, 0) + sigma);
+        return 1;
+    }
 
     // from (1)
     //  e(n-1) neglible if
@@ -540,8 +545,8 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
     qn = armas_get_unsafe(Z, qrow, N - 1);
     qn1 = armas_get_unsafe(Z, qrow, N - 2);
 
-    // deflate if N == 1 or if last E is neglibe --> 1 eigenvalue 
-    if (N == 1 || en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
+    // deflate if last E is neglibe --> 1 eigenvalue 
+    if (en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
         r1 = armas_get_unsafe(Z, qqrow, N - 1);
         //printf("..[neglible] deflate, 1 eigenvalue, k=%d, eig=%9.7f (%9.7f)\n",
         //       N-1, SQRT(qn+sigma), SQRT(r1+sigma));
-- 
2.43.0


From 20f493ae2c581f9d0f27e8395bc9766e3af0b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 040/108] fix: sign of the starting value of shifted sweeps in
 Demmel-Kahan iteration

---
 src/lapack/bdsvd_dk.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index a1c16be..3b30a96 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -292,20 +292,20 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             zero = 1;
         } else {
             if (forwards) {
-                d0 = ABS(armas_get_at_unsafe(D, ip));
+                d0 = armas_get_at_unsafe(D, ip);
                 d1 = armas_get_at_unsafe(D, iq - 2);
                 e1 = armas_get_at_unsafe(E, iq - 2);
                 dp = armas_get_at_unsafe(D, iq - 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             } else {
-                d0 = ABS(armas_get_at_unsafe(D, iq - 1));
+                d0 = armas_get_at_unsafe(D, iq - 1);
                 d1 = armas_get_at_unsafe(D, ip);
                 e1 = armas_get_at_unsafe(E, ip);
                 dp = armas_get_at_unsafe(D, ip + 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             }
-            if (d0 > ZERO)
-                zero = (ushift / d0) * (ushift / d0) <= EPS;
+            // shift is not used if it is neglible; it cannot be used with zero diagonal
+            zero = d0 == ZERO || (ushift / d0) * (ushift / d0) <= EPS;
         }
 
         armas_subvector(&sD, D, ip, iq - ip);
-- 
2.43.0


From ccc857e9f7d44301880427b407c575507d4e4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 041/108] fix: BLAS level 3 calls do not fail in middle of
 computation if cache buffer cannot be allocated

---
 src/base/cache.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 1f5da90..290da0a 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -222,7 +222,9 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        // block columns are at least one cache line
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -340,7 +342,9 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        // block columns are at least one cache line
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -505,8 +509,16 @@ void armas_cbuf_release_thread_global()
     }
 }
 
+/*
+ * Smallest cache buffer; each thread has one of its own.
+ */
+static __thread unsigned char cbuf_small[CACHEMIN + CACHELINE];
+
 /**
  * @brief Select internal cache memory buffer based on configuration.
+ *
+ * If memory for the buffer cannot be allocated then the minimum size buffer is used. Block
+ * sizes are then small but callers in middle of a computation do not fail.
  */
 int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
 {
@@ -523,7 +535,10 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         }
     }
     if (cf && (cf->optflags & ARMAS_CBUF_LOCAL) != 0) {
-        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : -1;
+        if (armas_cbuf_init(cbuf, env->cmem, env->l1mem))
+            return 0;
+        armas_cbuf_make(cbuf, cbuf_small, CACHEMIN, env->l1mem);
+        return 0;
     }
 
     cb = armas_cbuf_create_thread_global();
@@ -531,7 +546,8 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         *cbuf = *cb;
         return 0;
     }
-    return -1;
+    armas_cbuf_make(cbuf, cbuf_small, CACHEMIN, env->l1mem);
+    return 0;
 }
 
 //! @}
-- 
2.43.0


From 3dd44b7f61abfd2cec2128a6791b29cbe641516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 042/108] fix: workspace of extended precision triangular solve
 need not be zeros

---
 src/eblas/trsv_ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index eaea513..72cfd79 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -334,6 +334,9 @@ int armas_ext_mvsolve_trm_w(
         return -ARMAS_EMEMORY;
     }
     armas_make(&dX, A->cols, 1, A->cols, (DTYPE *)armas_wptr(wb));
+    // error terms are zero at start
+    for (int i = 0; i < N; i++)
+        armas_set_at_unsafe(&dX, i, ZERO);
     armas_ext_mvsolve_trm_unsafe(x, &dX, alpha, A, flags);
     return 0;
 }
-- 
2.43.0


From 91d4db13d6f85d18ab140b6c742584decb69adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 043/108] fix: old contents of cache buffer spoil product when
 inner dimension is not multiple of vector length

Entries past the end of a block were masked out only from the first operand; a NaN or an
infinity left there by an earlier computation turned the result to NaN.
---
 src/blas/kernel.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/blas/kernel.c b/src/blas/kernel.c
index 4cead8f..0267b74 100644
--- a/src/blas/kernel.c
+++ b/src/blas/kernel.c
@@ -34,6 +34,27 @@
  *
  */
 
+/*
+ * Inner kernels read columns of the blocks in full vector registers and mask out entries
+ * past the last row only from the other operand. Cache buffer is not initialized here and
+ * old NaN or infinite value there would spoil the result even when multiplied with zero.
+ */
+static inline
+void clear_block_tail(const armas_dense_t *blk)
+{
+    const int vlen = 64/sizeof(DTYPE); // entries in a cache line
+    int i, j, end = ((blk->rows + vlen - 1)/vlen)*vlen;
+    if (end > blk->step)
+        end = blk->step;
+    if (end <= blk->rows)
+        return;
+    for (j = 0; j < blk->cols; j++) {
+        for (i = blk->rows; i < end; i++) {
+            blk->elems[i + j*blk->step] = ZERO;
+        }
+    }
+}
+
 void armas_mult_kernel_inner(
     armas_dense_t *Cblk,
     DTYPE alpha,
@@ -44,6 +65,7 @@ void armas_mult_kernel_inner(
     register int j, kp;
     armas_dense_t Ca, Ac;
 
+    clear_block_tail(Bblk);
     for (kp = 0; kp < Cblk->rows; kp += rb) {
         int nK = min(rb, Cblk->rows-kp);
         armas_submatrix_unsafe(&Ca, Cblk, kp, 0, nK, Cblk->cols);
-- 
2.43.0


From 897d0ecff2ed904e1ed2256e056fef7a8375da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 044/108] fix: space in conf.work is used only for duration of
 the call, and aligned size of buffers

Buffer in conf.work was reserved permanently and the next call did not find any space in
it. Aligned buffer lost a cache line and the fixed block sizes were compared to the size
before alignment.
---
 src/base/cache.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 290da0a..75654a3 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -55,9 +55,9 @@ size_t cache_aligned(void **aligned, void *ptr, size_t len)
 {
     char *p = (char *)ptr;
     uint64_t na, addr = (uint64_t)ptr;
-    na = CACHELINE - (addr & (CACHELINE-1));
+    na = (CACHELINE - (addr & (CACHELINE-1))) & (CACHELINE-1);
     *aligned = (void *)&p[na];
-    return len - na;
+    return len < na ? 0 : len - na;
 }
 
 /**
@@ -83,6 +83,9 @@ armas_cbuf_t *armas_cbuf_init(armas_cbuf_t *cbuf, size_t cmem, size_t l1mem)
         return (armas_cbuf_t *)0;
     cbuf->__nbytes = asize;
     cbuf->len = cache_aligned((void **)&cbuf->data, cbuf->__unaligned, asize);
+    // block sizes must not depend on the address of the buffer
+    if (cbuf->len > cmem)
+        cbuf->len = cmem;
     cbuf->cmem = cmem;
     cbuf->l1mem = l1mem;
     return cbuf;
@@ -110,8 +113,8 @@ armas_cbuf_t *armas_cbuf_new(size_t cmem, size_t l1mem)
  * provided memory block.
  *
  * @param [out] cbuf   Cache buffer
- * @param [in]  buf    Buffer space, at least cmem+CACHELINE bytes
- * @param [in]  cmem   Requested aligned size
+ * @param [in]  buf    Buffer space, at least cmem bytes
+ * @param [in]  cmem   Size of buffer space; what is left after alignment is used.
  * @param [in]  l1mem  L1 cache size
  *
  * @returns
@@ -259,7 +262,7 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
     mb = mb < 4 ? 4 : mb & ~0x3;
     nb = nb < 4 ? 4 : nb & ~0x3;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -388,7 +391,7 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
     mb = mb < 4 ? 4 : mb & ~0x3;
     nb = nb < 4 ? 4 : nb & ~0x3;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -484,7 +487,9 @@ armas_cbuf_t *armas_cbuf_create_thread_global()
 
     armas_cbuf_t *cb = (armas_cbuf_t *)cbuf_ptr;
     unsigned char *cp = (unsigned char *)cbuf_ptr;
-    armas_cbuf_make(cb, &cp[sizeof(armas_cbuf_t)], env->cmem, env->l1mem);
+    armas_cbuf_make(cb, &cp[sizeof(armas_cbuf_t)], alloc_size(env->cmem), env->l1mem);
+    // block sizes must not depend on the address of the buffer
+    cb->len = cb->cmem = env->cmem;
 
     return cb;
 }
@@ -527,9 +532,8 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
     if (cf && cf->work) {
         size_t ws = armas_wbytes(cf->work);
         if (ws >= env->cmem) {
-            // use provided cbuf if it is large enough.
+            // use provided cbuf if it is large enough; it is free again when the call returns
             armas_cbuf_make(cbuf, armas_wptr(cf->work), ws, env->l1mem);
-            armas_wreserve(cf->work, ws, 1);
             cbuf->__unaligned = (void *)0;
             return 0;
         }
-- 
2.43.0


From 5b844c742e8119916d4428088362de882c01f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 045/108] fix: block buffer overrun when configured block sizes
 are not increasing

---
 src/base/cache.c | 14 ++++++++++----
 src/blas/symm.c  | 10 ++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 75654a3..b887d48 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -261,8 +261,11 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
 {
     mb = mb < 4 ? 4 : mb & ~0x3;
     nb = nb < 4 ? 4 : nb & ~0x3;
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->len) {
+    size_t step = kb > (CACHELINE/p) ? kb : (CACHELINE/p);
+    size_t bytes = step*(mb + nb)*p;
+    step -= step % (CACHELINE/p);
+    // columns of square blocks and of the result block must fit too.
+    if (bytes > cbuf->len || mb > step || nb > step) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -390,8 +393,11 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
 {
     mb = mb < 4 ? 4 : mb & ~0x3;
     nb = nb < 4 ? 4 : nb & ~0x3;
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->len) {
+    size_t step = kb > (CACHELINE/p) ? kb : (CACHELINE/p);
+    size_t bytes = step*(mb + 2*nb)*p;
+    step -= step % (CACHELINE/p);
+    // columns of square blocks and of the result block must fit too.
+    if (bytes > cbuf->len || mb > step || nb > step) {
         return -1;
     }
     if (kb > (CACHELINE/p))
diff --git a/src/blas/symm.c b/src/blas/symm.c
index 4bbb571..2569be0 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -46,17 +46,18 @@ void mult_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // block of C is MB-by-NB; square NB-by-NB block of A is the second operand
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_mult_kernel_inner(C, alpha, &Bcpy, &Acpy, cache->rb);
@@ -220,9 +221,6 @@ void armas_mult_symm_right(
 
     int mb = C->rows < mcache->MB ? C->rows : mcache->MB;
     int nb = C->cols < mcache->NB ? C->cols : mcache->NB;
-    // diagonal block of A is copied to Acpy which has only MB columns
-    if (nb > mcache->MB)
-        nb = mcache->MB;
     for (ic = 0; ic < C->cols; ic += nb) {
         nC = C->cols - ic < nb ? C->cols - ic : nb;
 
-- 
2.43.0


From ae4bf388dc734a3ae99f7cab9a7452eeff5f617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 046/108] fix: JSON string streams must not write to the string
 and bytes over 0x7f are not end of stream

---
 src/include/armas.h |  4 +++-
 src/io/ios.c        | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index 8109149..f44e7aa 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -365,7 +365,9 @@ int armas_ios_putchar(armas_iostream_t *ios, int c)
 __ARMAS_INLINE
 void armas_ios_close(armas_iostream_t *ios)
 {
-    if (ios && ios->vt->close)
+    if (!ios)
+        return;
+    if (ios->vt->close)
         ios->vt->close(ios->stream);
     ios->stream = (void *)0;
 }
diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..29b6945 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
@@ -64,11 +64,20 @@ int wb_putc(void *ptr, int c)
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes) {
         wb->buf[wb->offset++] = c;
-        return c;
+        return (unsigned char)c;
     }
     return -1;
 }
 
+// string is not ours to write; character pushed back is the one just read
+static
+void str_ungetc(void *ptr, int c)
+{
+    struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
+    if (wb->offset > 0)
+        wb->offset--;
+}
+
 static
 void str_close(void *ptr)
 {
@@ -79,7 +88,7 @@ void str_close(void *ptr)
 static
 armas_iostream_vtable_t str_vtable = (armas_iostream_vtable_t){
     .get_char = wb_getc,
-    .unget_char = wb_ungetc,
+    .unget_char = str_ungetc,
     .put_char = 0,
     .close = str_close
 };
-- 
2.43.0


From 6291e85c614dac05e04c6de4f142dbe8bd5209b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 047/108] fix: JSON tokenizer accepts malformed numbers and
 skips characters that are not JSON

---
 src/io/json_reader.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..35fc354 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -7,6 +7,7 @@
 
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 
 #include "armas.h"
@@ -107,6 +108,8 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             switch (state) {
             case JSON_STATE_NUMBER:
             case JSON_STATE_EXP1:
+                if (!isdigit((unsigned char)bp[-1]))
+                    return ARMAS_JSON_EINVAL;
                 // we had one element; a number
                 *bp = '\0';
                 //return is_frac ? ARMAS_JSON_NUMBER : ARMAS_JSON_INT;
@@ -141,6 +144,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case 'b':
                 *bp++ = '\b';
                 break;
+            case 'f':
+                *bp++ = '\f';
+                break;
             case 'n':
                 *bp++ = '\n';
                 break;
@@ -185,7 +191,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            c = strtol(lit, (char **)0, 16) & 0xff;
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
@@ -200,16 +206,21 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case '\r':
             case '\t':
                 armas_ios_ungetchar(reader, c);
+                // number does not end with '-' or '.'
+                if (!isdigit((unsigned char)bp[-1]))
+                    return ARMAS_JSON_EINVAL;
                 *bp = '\0';
                 //return is_frac ? ARMAS_JSON_NUMBER : ARMAS_JSON_INT;
                 return ARMAS_JSON_NUMBER;
             case 'e':
             case 'E':
+                if (!isdigit((unsigned char)bp[-1]))
+                    return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 state = JSON_STATE_EXP;
                 break;
             case '.':
-                if (is_frac)
+                if (is_frac || !isdigit((unsigned char)bp[-1]))
                     return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 is_frac = 1;
@@ -230,6 +241,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             switch (c) {
             case '-':
             case '+':
+                // only one sign
+                if (bp[-1] != 'e' && bp[-1] != 'E')
+                    return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 break;
             default:
@@ -363,7 +377,8 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                     state = JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                // nothing else can start a token
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From 99c61b0ab88847e652fe149dc5a69c663fb04d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 048/108] fix: JSON writer reports values it cannot write and
 keeps control characters of strings

---
 src/io/json_writer.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..bdaab70 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -35,8 +35,8 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
         break;
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
-        armas_ios_putchar(writer, '"');
-        for (int k = 0; *cp && k < len; k++, cp++) {
+        JSON_ONERROR(armas_ios_putchar(writer, '"'));
+        for (size_t k = 0; k < len && *cp; k++, cp++) {
             switch (*cp) {
             case '\t':
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
@@ -67,8 +67,13 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '"'));
                 break;
             default:
-                if (!iscntrl(*cp))
-                    JSON_ONERROR(armas_ios_putchar(writer, *cp));
+                if (iscntrl((unsigned char)*cp)) {
+                    n = snprintf(buf, sizeof(buf), "\\u%04x", (unsigned char)*cp);
+                    for (int i = 0; i < n; i++)
+                        JSON_ONERROR(armas_ios_putchar(writer, buf[i]));
+                } else {
+                    JSON_ONERROR(armas_ios_putchar(writer, (unsigned char)*cp));
+                }
                 break;
             }
         }
@@ -96,11 +101,13 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             return -1;
         }
 
-        if (isfinite(v)) {
-            n = snprintf(buf, sizeof(buf), numformat, v);
-            for (int k = 0; k < n; k++)
-                JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
-        }
+        n = snprintf(buf, sizeof(buf), numformat, v);
+        // infinity or NaN have no JSON representation (isfinite() does not work here if
+        // compiled with finite math optimizations)
+        if (!isdigit((unsigned char)buf[buf[0] == '-' ? 1 : 0]))
+            return -1;
+        for (int k = 0; k < n; k++)
+            JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
         break;
     case ARMAS_JSON_TRUE:
         JSON_ONERROR(armas_ios_putchar(writer, 't'));
-- 
2.43.0


From d19c00ee5c68bb96b2c0347cdb1d7dcb817a79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 049/108] fix: JSON matrix reader reports success for
 incomplete data and writes outside of the matrix

---
 src/io/json_base.c | 57 ++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..4a2c554 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -20,6 +20,9 @@
 
 //! @cond
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <limits.h>
 #include "matrix.h"
 //! @endcond
 
@@ -111,6 +114,18 @@ enum {
     MEMBER_DTA_VAL
 };
 
+// Convert number token to int.
+static
+int armas_json_get_int(int *val, const char *iob)
+{
+    char *endp;
+    long v = strtol(iob, &endp, 10);
+    if (endp == iob || *endp != '\0' || v < INT_MIN || v > INT_MAX)
+        return -1;
+    *val = (int)v;
+    return 0;
+}
+
 static
 int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *ios, char *iob, size_t ioblen)
 {
@@ -120,12 +135,14 @@ int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *io
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *row = atoi(iob);
+    if (armas_json_get_int(row, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *col = atoi(iob);
+    if (armas_json_get_int(col, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
@@ -147,7 +164,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
@@ -170,14 +187,9 @@ int armas_json_read_data(armas_dense_t *A, armas_iostream_t *ios, char *iob, siz
     for (int j = 0; j < A->cols; j++) {
         for (int i = 0; i < A->rows; i++, n++) {
             if (n > 0) {
-                if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',') {
-                    if (tok == ']') {
-                        /* array closing ']' */
-                        armas_ios_ungetchar(ios, tok);
-                        return n;
-                    }
+                /* element for all of the matrix required */
+                if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
                     return -1;
-                }
             }
             tok = armas_json_read_token(iob, ioblen, ios);
             if (tok != ARMAS_JSON_NUMBER && tok != ARMAS_JSON_INT) {
@@ -263,25 +275,25 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
                 }
                 return -1;
             }
-            if (strncmp(iob, "rows", 4) == 0) {
+            if (strcmp(iob, "rows") == 0) {
                 if ((member_bits & HAVE_ROWS) != 0)
                     return -4;
                 state = MEMBER_ROW_SEP;
             }
-            else if (strncmp(iob, "cols", 4) == 0) {
+            else if (strcmp(iob, "cols") == 0) {
                 if ((member_bits & HAVE_COLS) != 0)
                     return -4;
                 state = MEMBER_COL_SEP;
             }
-            else if (strncmp(iob, "data", 4) == 0) {
+            else if (strcmp(iob, "data") == 0) {
                 state = MEMBER_DTA_SEP;
             }
-            else if (strncmp(iob, "nnz", 3) == 0) {
+            else if (strcmp(iob, "nnz") == 0) {
                 if ((member_bits & HAVE_NNZ) != 0)
                     return -4;
                 state = MEMBER_NNZ_SEP;
             }
-            else if (strncmp(iob, "flags", 5) == 0) {
+            else if (strcmp(iob, "flags") == 0) {
                 if ((member_bits & HAVE_FLAGS) != 0)
                     return -4;
                 state = MEMBER_FLG_SEP;
@@ -306,7 +318,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_ROW_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            rows = atoi(iob);
+            if (armas_json_get_int(&rows, iob) < 0 || rows < 0)
+                return -1;
             member_bits |= HAVE_ROWS;
             state = MEMBER_SEP;
             break;
@@ -319,7 +332,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_COL_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            cols = atoi(iob);
+            if (armas_json_get_int(&cols, iob) < 0 || cols < 0)
+                return -1;
             member_bits |= HAVE_COLS;
             state = MEMBER_SEP;
             break;
@@ -332,7 +346,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_NNZ_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            nnz = atoi(iob);
+            if (armas_json_get_int(&nnz, iob) < 0 || nnz < 0)
+                return -1;
             member_bits |= HAVE_NNZ;
             state = MEMBER_SEP;
             break;
@@ -377,7 +392,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From 6ce9a493c41c4be880207d15e655be669e739816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 050/108] fix: failed matrix allocation leaks the matrix and
 leaves it unsafe to release

---
 src/base/matrix.c    | 13 ++++++++-----
 src/include/matrix.h |  6 +++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..f4f2e95 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <limits.h>
 
 #include "dtype.h"
 #include "matrix.h"
@@ -62,15 +63,17 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         m->__nbytes = 0;
         return m;
     }
-    // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
-    m->__data = calloc(m->__nbytes, sizeof(DTYPE));
+    // adjusted element count; elements are indexed with int
+    size_t nelem = ALIGNSIZE((size_t)r*c, DTYPE);
+    m->__data = nelem <= INT_MAX ? calloc(nelem, sizeof(DTYPE)) : (void *)0;
     if ( !m->__data ) {
+        m->rows = m->cols = m->step = 0;
+        m->elems = (DTYPE *)0;
         m->__nbytes = 0;
         return (armas_dense_t *)0;
     }
-    // convert to number of bytes
-    m->__nbytes *= sizeof(DTYPE);
+    // number of bytes
+    m->__nbytes = nelem * sizeof(DTYPE);
     m->rows = r;
     m->cols = c;
     m->step = r;
diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..418b4bc 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From c382bd27703bbbc85a7c0f50cfb40b7d8f41e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 051/108] fix: dense matrix market load accepts malformed files
 and leaks, dump ignores write errors

---
 src/io/iomm.c | 107 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..3c32da2 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -8,6 +8,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <stdint.h>
+#include <limits.h>
 
 #include "dtype.h"
 
@@ -39,6 +41,26 @@
 #define MM_HERMITIAN    0x100
 #define MM_GENERAL      0x200
 
+// only white space left on the line
+static inline
+int at_eol(const char *s)
+{
+    return s[strspn(s, " \t\r\n")] == '\0';
+}
+
+// read non-negative integer
+static inline
+int read_int(const char **s, int *val)
+{
+    char *endp;
+    long v = strtol(*s, &endp, 10);
+    if (endp == *s || v < 0 || v > INT_MAX || !strchr(" \t\r\n", *endp))
+        return -1;
+    *s = endp;
+    *val = (int)v;
+    return 0;
+}
+
 #if COMPLEX32 || COMPLEX64
 #define MM_DTYPE ARMAS_MM_COMPLEX
 #define TYPE_STRING "complex"
@@ -59,24 +81,20 @@ DTYPE read_value(char *s)
 #define MM_DTYPE ARMAS_MM_REAL
 #define TYPE_STRING "real"
 
-#if FLOAT32
-#define FMT1 "%f"
-#define FMT3 "%d %d %f"
-#else
-#define FMT1 "%lf"
-#define FMT3 "%d %d %lf"
-#endif
-
 static inline
 int read_value(const char *s, DTYPE *val)
 {
-    return sscanf(s, FMT1, val);
+    char *endp;
+    *val = strtod(s, &endp);
+    return endp != s && at_eol(endp) ? 0 : -1;
 }
 
 static inline
 int read_line(const char *s, int *row, int *col, DTYPE *val)
 {
-    return sscanf(s, FMT3, row, col, val);
+    if (read_int(&s, row) < 0 || read_int(&s, col) < 0)
+        return -1;
+    return read_value(s, val);
 }
 
 #endif
@@ -216,30 +234,25 @@ static
 int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
-    char *cp, *endptr;
-    int nread;
+    int nread, nc = -1;
     size_t ioblen = 0;
 
+    *m = *n = *nnz = 0;
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
         if (iob[0] != '%')
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+    if (nread != -1) {
+        const char *cp = iob;
+        nc = read_int(&cp, m) < 0 || read_int(&cp, n) < 0 ? -1 : 0;
+        if (nc == 0 && (typecode & ARMAS_MM_COORDINATE) != 0)
+            nc = read_int(&cp, nnz);
+        if (nc == 0 && !at_eol(cp))
+            nc = -1;
     }
-    free(iob);
-    return 0;
+    if (iob)
+        free(iob);
+    return nc;
 }
 
 /**
@@ -254,7 +267,7 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
  *    Pointer to opened file. Reading starts at current file location.
  *
  * @returns
- *    0 on success
+ *    >=0 type code bits of the file on success
  *    <0 on error
  * 
  * @ingroup matrix
@@ -284,19 +297,23 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (flags)
+        *flags = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? ARMAS_SYMM : 0;
+
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
     if ((typecode & ARMAS_MM_ARRAY) != 0) 
-        nelem = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? n*(n + 1)/2 : m*n;
+        nelem = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? (int)((int64_t)n*(n + 1)/2) : m*n;
 
     ioblen = 0;
     iobuf = (char *)0;
     c =  k = 0;
     r = -1;
     nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
+    while (k < nelem && (nread = getline(&iobuf, &ioblen, f)) != -1) {
         if (*iobuf == '%')
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
@@ -326,8 +343,9 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             // indexing starting from 1
             r--; c--;
         }
-        if (r >= 0 && r < A->rows && c >= 0 && c < A->cols)
-            armas_set_unsafe(A, r, c, v);
+        if (r < 0 || r >= A->rows || c < 0 || c >= A->cols)
+            goto endloop;
+        armas_set_unsafe(A, r, c, v);
         k++;
     }
  endloop:
@@ -336,29 +354,42 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem || ferror(f)) {
+        armas_release(A);
         return -1;
+    }
 
     return typecode;
 }
 
 
+/**
+ * @brief Write matrix to file in matrix market array format
+ *
+ * @return Number of bytes written or <0 if write failed.
+ * @ingroup matrix
+ */
 int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
 {
     char *s = "general";
     char *t = TYPE_STRING;
-    int n, j, k;
+    int n, nc, j, k;
 
     if  ((flags & ARMAS_SYMM) != 0)
         s = "symmetric";
 
-    n  = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s);
-    n += fprintf(f, "%d %d\n", A->rows, A->cols);
+    if ((n = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s)) < 0)
+        return -1;
+    if ((nc = fprintf(f, "%d %d\n", A->rows, A->cols)) < 0)
+        return -1;
+    n += nc;
 
     for (j = 0; j < A->cols; j++) {
         k = (flags & ARMAS_SYMM) != 0 ? j : 0;
         for ( ; k < A->rows; k++) {
-            n += fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j));
+            if ((nc = fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j))) < 0)
+                return -1;
+            n += nc;
         }
     }
     return n;
-- 
2.43.0


From a0cfa5e76d802b954861e22d49aa24d64e78bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 052/108] fix: sparse matrix market load accepts incomplete
 files and leaks, dump writes zero based indexes and ignores write errors

---
 src/sparse/io.c | 136 ++++++++++++++++++++++++++++++------------------
 1 file changed, 84 insertions(+), 52 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..cc423b1 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "matrix.h"
 #include "sparse.h"
@@ -78,6 +79,26 @@ char *strlower(char *s)
     return s;
 }
 
+// only white space left on the line
+static inline
+int at_eol(const char *s)
+{
+    return s[strspn(s, " \t\r\n")] == '\0';
+}
+
+// read non-negative integer
+static inline
+int read_int(const char **s, int *val)
+{
+    char *endp;
+    long v = strtol(*s, &endp, 10);
+    if (endp == *s || v < 0 || v > INT_MAX || !strchr(" \t\r\n", *endp))
+        return -1;
+    *s = endp;
+    *val = (int)v;
+    return 0;
+}
+
 /*
  *  banner row:
  *  %%Matrixmarket matrix|image array|coordinate real|complex|integer  <empty>|symmetric|hermitian
@@ -151,30 +172,25 @@ static
 int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *) 0;
-    char *cp, *endptr;
-    int nread;
+    int nread, nc = -1;
     size_t ioblen = 0;
 
+    *m = *n = *nnz = 0;
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
         if (iob[0] != '%')
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+    if (nread != -1) {
+        const char *cp = iob;
+        nc = read_int(&cp, m) < 0 || read_int(&cp, n) < 0 ? -1 : 0;
+        if (nc == 0 && (typecode & ARMAS_MM_COORDINATE) != 0)
+            nc = read_int(&cp, nnz);
+        if (nc == 0 && !at_eol(cp))
+            nc = -1;
     }
-    free(iob);
-    return 0;
+    if (iob)
+        free(iob);
+    return nc;
 }
 
 /**
@@ -189,7 +205,8 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 {
     int tc;
     int m, n, nnz;
-    char *iobuf, *bp, *endptr;
+    char *iobuf, *endptr;
+    const char *bp;
     size_t ioblen;
     armas_sparse_t *A;
 
@@ -212,27 +229,32 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 
     ioblen = 0;
     iobuf = (char *) 0;
-    int nread, k = 0;
+    int nread, i, j, k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
+    while (k < nnz && (nread = getline(&iobuf, &ioblen, f)) != -1) {
+        if (*iobuf == '%')
+            continue;
         bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
+        // indexing starting from 1
+        if (read_int(&bp, &i) < 0 || read_int(&bp, &j) < 0 ||
+            i < 1 || i > m || j < 1 || j > n)
+            break;
         v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
-#if 0
-        if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
-            armassp_append(A, n - 1, m - 1, v);
-        }
-#endif
+        if (endptr == bp || !at_eol(endptr))
+            break;
+        if (armassp_append(A, i - 1, j - 1, v) < 0)
+            break;
         k++;
     }
     // getline allocates; we free it
     if (iobuf)
         free(iobuf);
 
+    // all of the entries required
+    if (k != nnz || ferror(f)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
@@ -250,12 +272,12 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
  *   If *ARMAS_MM_SYMMETRIC* then matrix market banner reports as
  *   symmetric matrix.
  *
- * @return Number of bytes writen.
+ * @return Number of bytes writen or <0 if write failed.
  * @ingroup sparse
  */
 int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 {
-    int n;
+    int n, nc = 0;
     char *s = "general";
 
     if ((flags & MM_SYMMETRIC) != 0)
@@ -263,36 +285,46 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
-        for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
-                         A->elems.ep[k].val);
+    case ARMASSP_CSR:
+    case ARMASSP_CSC:
+        break;
+    default:
+        return 0;
+    }
+
+    if ((n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s)) < 0)
+        return -1;
+    if ((nc = fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz)) < 0)
+        return -1;
+    n += nc;
+
+    // indexing starts from 1
+    switch (A->kind) {
+    case ARMASSP_COO:
+        for (int k = 0; k < A->nnz && nc >= 0; k++) {
+            nc = fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1,
+                         A->elems.ep[k].j + 1, A->elems.ep[k].val);
+            n += nc;
         }
         break;
     case ARMASSP_CSR:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
-        for (int i = 0; i < A->rows; i++) {
-            for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+        for (int i = 0; i < A->rows && nc >= 0; i++) {
+            for (int k = A->ptr[i]; k < A->ptr[i + 1] && nc >= 0; k++) {
+                nc = fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
+                n += nc;
             }
         }
         break;
-    case ARMASSP_CSC:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
-        for (int j = 0; j < A->cols; j++) {
-            for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+    default:
+        for (int j = 0; j < A->cols && nc >= 0; j++) {
+            for (int k = A->ptr[j]; k < A->ptr[j + 1] && nc >= 0; k++) {
+                nc = fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
+                n += nc;
             }
         }
         break;
-    default:
-        n = 0;
-        break;
     }
-    return n;
+    return nc < 0 ? -1 : n;
 }
 
 #if defined(armassp_pprintf)
-- 
2.43.0


From fb91aad5d228913a67411fe79acebaab35287674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 053/108] fix: sparse matrix without entries loses its size,
 failed allocation leaks and resize overruns

---
 src/sparse/util.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..3fa6d77 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -99,13 +99,16 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
 armas_sparse_t *armassp_init(armas_sparse_t * A, int rows, int cols,
                                  int nnz, armassp_type_enum storage)
 {
-    if (rows == 0 || cols == 0 || nnz == 0) {
-        armassp_clear(A);
+    armassp_clear(A);
+    A->kind = storage;
+    if (rows < 0 || cols < 0 || nnz < 0)
+        return (armas_sparse_t *) 0;
+    if (rows == 0 || cols == 0)
         return A;
-    }
+    // no space needed for coordinate list without elements
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
-    void *data = calloc(nbytes, 1);
-    if (!data)
+    void *data = nbytes > 0 ? calloc(nbytes, 1) : (void *) 0;
+    if (!data && nbytes > 0)
         return (armas_sparse_t *) 0;
     armassp_make(A, rows, cols, nnz, storage, data, nbytes);
     return A;
@@ -118,7 +121,11 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
         (armas_sparse_t *) calloc(1, sizeof(armas_sparse_t));
     if (!A)
         return A;
-    return armassp_init(A, rows, cols, nnz, kind);
+    if (!armassp_init(A, rows, cols, nnz, kind)) {
+        free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -128,13 +135,18 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
 int armassp_resize(armas_sparse_t * A, int newsize)
 {
     if (A->kind == ARMASSP_COO) {
+        // existing elements must fit
+        if (newsize < A->nnz)
+            return -1;
         coo_elem_t *nb = (coo_elem_t *) calloc(newsize, sizeof(coo_elem_t));
         if (!nb)
             return -1;
-        memcpy(nb, A->elems.ep, A->nnz * sizeof(coo_elem_t));
+        if (A->nnz > 0)
+            memcpy(nb, A->elems.ep, A->nnz * sizeof(coo_elem_t));
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
-- 
2.43.0


From 17f1792a746283356b5513bfcd52e7c6ac0f283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 054/108] fix: sparse diagonal test looked at wrong elements
 for off-diagonals, element search read past the indexes

---
 src/include/sparse.h |  2 +-
 src/sparse/util.c    | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..f6b7a65 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
diff --git a/src/sparse/util.c b/src/sparse/util.c
index 3fa6d77..ce8f0c3 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -180,7 +180,7 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
  */
 int armassp_hasdiag(const armas_sparse_t * A, int diag)
 {
-    int i, j, start, end, p, roff, coff;
+    int i, j, start, end, p;
     int nc = 0;
 
     if (!A || A->rows != A->cols)
@@ -192,19 +192,17 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
         nc = diag < 0 ? A->rows + diag : A->cols - diag;
         for (i = 0; i < A->nnz; i++) {
-            if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
+            if (A->elems.ep[i].j - A->elems.ep[i].i == diag)
                 nc--;
         }
         break;
     case ARMASSP_CSC:
         start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
+        end = diag < 0 ? A->cols + diag : A->cols;
         nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
+        for (i = start - diag, j = start; j < end; i++, j++) {
             for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
                 if (armassp_at(A, p) == i) {
                     nc--;
@@ -217,7 +215,7 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         start = diag < 0 ? -diag : 0;
         end = diag > 0 ? A->rows - diag : A->rows;
         nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
+        for (j = start + diag, i = start; i < end; i++, j++) {
             for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
                 if (armassp_at(A, p) == j) {
                     nc--;
-- 
2.43.0


From 7de10a6bcdf6ff6b83604f2a385d258574381170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 055/108] fix: sparse conversion, transpose and copy fail for
 larger targets, leak on failure and leave targets incomplete

---
 src/sparse/convert.c | 60 +++++++++++++++++++++++++++++---------------
 src/sparse/copy.c    | 25 ++++++++++++++++--
 src/sparse/dense.c   |  6 +++++
 3 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..fbdcea5 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -14,7 +14,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armassp_sort)
+#if defined(armassp_sort) && defined(armassp_copy_to)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -223,7 +223,7 @@ void csr_convert(armas_sparse_t * A, const armas_sparse_t * B)
 armas_sparse_t *armassp_convert_to(
     armas_sparse_t * A, const armas_sparse_t * B, armassp_type_enum target)
 {
-    if (!B)
+    if (!A || !B)
         return (armas_sparse_t *) 0;
 
     // only conversion to CSR or CSC supported
@@ -234,12 +234,14 @@ armas_sparse_t *armassp_convert_to(
     if (!armassp_test_alloc(A, B->rows, B->cols, B->nnz, target)) {
         return (armas_sparse_t *) 0;
     }
-    // test structure
-    if (!armassp_test_structure(A, B->rows, B->cols, B->nnz, target)) {
-        return (armas_sparse_t *) 0;
-    }
-    // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    // target same as source implies copying
+    if (B->kind == target)
+        return armassp_copy_to(A, B);
+
+    // init structure and internal arrays
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
+    for (int k = 0; k <= A->nptr; k++)
+        A->ptr[k] = 0;
 
     switch (B->kind) {
     case ARMASSP_COO:
@@ -250,15 +252,11 @@ armas_sparse_t *armassp_convert_to(
         armassp_sort(A);
         break;
     case ARMASSP_CSC:
-        if (target == ARMASSP_CSR)
-            csc_to_csr(A, B);
-        // target CSC implies copying ...
+        csc_to_csr(A, B);
         break;
     case ARMASSP_CSR:
     default:
-        if (target == ARMASSP_CSC)
-            csr_to_csc(A, B);
-        // target CSR implies copying ...
+        csr_to_csc(A, B);
         break;
     }
     return A;
@@ -279,8 +277,20 @@ armas_sparse_t *armassp_convert_to(
 armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
-    armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    armas_sparse_t *A;
+
+    if (!B || (target != ARMASSP_CSC && target != ARMASSP_CSR))
+        return (armas_sparse_t *) 0;
+
+    A = armassp_new(B->rows, B->cols, B->nnz, target);
+    // nothing to convert if no rows or columns
+    if (!A || B->rows == 0 || B->cols == 0)
+        return A;
+    if (!armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -320,10 +330,20 @@ armas_sparse_t *armassp_transpose_to(armas_sparse_t * A,
 
 armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
 {
-    armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
-    // make space reservation as if converted to other storage format
-    armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    armas_sparse_t *A;
+
+    if (!B || (B->kind != ARMASSP_CSC && B->kind != ARMASSP_CSR))
+        return (armas_sparse_t *) 0;
+
+    A = armassp_new(B->cols, B->rows, B->nnz, B->kind);
+    // nothing to transpose if no rows or columns
+    if (!A || B->rows == 0 || B->cols == 0)
+        return A;
+    if (!armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..130894b 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -21,6 +21,7 @@
 
 #include "matrix.h"
 #include "sparse.h"
+#include "splocal.h"
 
 /**
  * @brief Make A = B
@@ -41,6 +42,7 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
     switch (B->kind) {
     case ARMASSP_CSC:
     case ARMASSP_CSR:
+        armassp_init_structure(A, B->rows, B->cols, B->nnz, B->kind);
         Ae = A->elems.v;
         Be = B->elems.v;
         for (int k = 0; k < B->nnz; k++) {
@@ -57,6 +59,13 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         for (int k = 0; k < B->nnz; k++) {
             A->elems.ep[k] = B->elems.ep[k];
         }
+        A->ptr = A->ix = (int *) 0;
+        A->nptr = 0;
+        A->rows = B->rows;
+        A->cols = B->cols;
+        A->nnz = B->nnz;
+        A->size = armassp_nbytes(A) / sizeof(coo_elem_t);
+        A->kind = B->kind;
         break;
     }
     return A;
@@ -69,8 +78,20 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
  */
 armas_sparse_t *armassp_mkcopy(const armas_sparse_t * B)
 {
-    armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
-    return armassp_copy_to(A, B);
+    armas_sparse_t *A;
+
+    if (!B)
+        return (armas_sparse_t *) 0;
+
+    A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
+    // nothing to copy if no rows or columns
+    if (!A || B->rows == 0 || B->cols == 0)
+        return A;
+    if (!armassp_copy_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/sparse/dense.c b/src/sparse/dense.c
index 89ce9e3..e83200f 100644
--- a/src/sparse/dense.c
+++ b/src/sparse/dense.c
@@ -34,6 +34,12 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
         return -1;
     }
 
+    // entries not in sparse matrix are zeros
+    for (int j = 0; j < A->cols; j++) {
+        for (int i = 0; i < A->rows; i++)
+            armas_set_unsafe(A, i, j, ZERO);
+    }
+
     int stat = 0;
     switch (B->kind) {
     case ARMASSP_CSC:
-- 
2.43.0


From b353848c02b02d049b6af6e7468a3b6f42495c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 056/108] fix: sparse matrix-vector products use elements of
 neighbouring columns and uninitialized result vector

---
 src/sparse/gemv.c | 18 +++++++++---------
 src/sparse/symv.c | 18 ++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..56d6c4e 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -29,10 +29,10 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta != ZERO ? y[i] * beta : ZERO;
 
         // update with linear combinations of A's columns
         for (int j = 0; j < A->cols; j++) {
@@ -48,7 +48,7 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k]];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j] = (beta != ZERO ? beta * y[j] : ZERO) + alpha * ax;
         }
     }
     return 0;
@@ -59,19 +59,19 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
         // y + alpha*A*x
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k]];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j] = (beta != ZERO ? beta * y[j] : ZERO) + alpha * ax;
         }
     } else {
         // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+        for (int i = 0; i < A->cols; i++)
+            y[i] = beta != ZERO ? y[i] * beta : ZERO;
 
         // update with linear combinations of A's rows
         for (int j = 0; j < A->rows; j++) {
@@ -97,8 +97,8 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..ff78c52 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -104,16 +104,16 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta != ZERO ? y[i] * beta : ZERO;
     }
     // update with linear combinations of A's columns
     for (j = 0; j < A->cols; j++) {
         ax = alpha * x[j];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k < A->ptr[j + 1] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k++;
         }
@@ -136,16 +136,16 @@ int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta != ZERO ? y[i] * beta : ZERO;
     }
     // update with linear combinations of A's columns
     for (j = A->cols - 1; j >= 0; j--) {
         ax = alpha * x[j];
         // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k >= A->ptr[j] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k--;
         }
@@ -192,10 +192,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols
+        && armas_size(y) == A->rows && armas_size(x) == A->cols;
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From fed5175c53b828a8dcb916c1e515d90b99337e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 057/108] fix: sparse triangular multiply and solve read
 outside of columns, solve ignores alpha

---
 src/sparse/trmv.c | 22 +++++++------
 src/sparse/trsv.c | 81 +++++++++++++++++++++++++++--------------------
 2 files changed, 58 insertions(+), 45 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..0b558c7 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -38,7 +38,7 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
             x[j] = alpha * xj;
         } else {
             // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
+            x[j] = k > A->ptr[j] && A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
         }
     }
     return 0;
@@ -54,7 +54,7 @@ int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = 0; j < A->rows; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += Ae[k] * x[A->ix[k]];
         }
@@ -96,7 +96,7 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -112,7 +112,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = A->cols - 1; j >= 0; j--) {
         xj = x[j];
         // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         // update x rows below diagonal
         for (i = k; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] += alpha * Ae[i] * xj;
@@ -121,7 +121,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -152,7 +152,7 @@ int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (j = 0; j < A->cols; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += A->elems.v[k] * x[A->ix[k]];
         }
@@ -176,7 +176,7 @@ int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j] = p < A->ptr[j + 1] && A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
@@ -209,12 +209,14 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
+    }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..d9a897f 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -23,6 +23,14 @@
 #include "matrix.h"
 #include "sparse.h"
 
+// value at position if it is diagonal entry of column/row j; zero otherwise
+static inline
+DTYPE diag_value(const armas_sparse_t * A, int p, int j)
+{
+    return p >= A->ptr[j] && p < A->ptr[j + 1] && A->ix[p] == j
+        ? A->elems.v[p] : ZERO;
+}
+
 // solve A*x = alpha*b; A upper triangular
 static
 int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
@@ -31,9 +39,9 @@ int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j, k;
     for (j = A->cols - 1; j >= 0; j--) {
         // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
-        x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
+        x[j] = unit ? x[j] : x[j] / diag_value(A, k, j);
+        for (i = A->ptr[j]; i <= k && A->ix[i] < j; i++) {
             x[A->ix[i]] -= Ae[i] * x[j];
         }
     }
@@ -54,7 +62,7 @@ int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit) {
             x[j] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j] = (x[j] - xk) / diag_value(A, i, j);
         }
     }
     return 0;
@@ -68,14 +76,14 @@ int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
             xk += Ae[i] * x[A->ix[i]];
         }
         // here Ax[i] == j
         if (unit) {
             x[j] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j] = (x[j] - xk) / diag_value(A, i, j);
         }
     }
     return 0;
@@ -87,10 +95,12 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int j, p;
     for (j = 0; j < A->rows; j++) {
-        // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
+        // skip elements below diagonal
+        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++);
+        x[j] = unit ? x[j] : x[j] / diag_value(A, p, j);
+        for (; p < A->ptr[j + 1]; p++) {
+            if (A->ix[p] == j)
+                continue;
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
@@ -104,11 +114,13 @@ int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++);
         // compute diagonal; assumes non-zero ; A->ix[i] == j
         if (!unit)
-            x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
+            x[j] /= diag_value(A, i, j);
+        for (; i < A->ptr[j + 1]; i++) {
+            if (A->ix[i] == j)
+                continue;
             x[A->ix[i]] -= A->elems.v[i] * x[j];
         }
     }
@@ -121,17 +133,13 @@ int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int j, p;
 
-    if (!unit)
-        x[0] /= Ae[A->ptr[0]];
-
-    for (j = 1; j < A->rows; j++) {
-
+    for (j = 0; j < A->rows; j++) {
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
             x[j] -= Ae[p] * x[A->ix[p]];
         }
         // compute diagonal; assumes non-zero ; A->ix[k] == j
         if (!unit)
-            x[j] /= Ae[p];
+            x[j] /= diag_value(A, p, j);
     }
     return 0;
 }
@@ -143,22 +151,17 @@ int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int i, j, k;
 
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
-
-    for (j = A->cols - 2; j >= 0; j--) {
+    for (j = A->cols - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
+        for (i = k; i < A->ptr[j + 1]; i++) {
+            if (A->ix[i] == j)
+                continue;
             x[j] -= Ae[i] * x[A->ix[i]];
         }
         // compute diagonal; assumes non-zero ; A->ix[k] == j
         if (!unit)
-            x[j] /= Ae[k];
+            x[j] /= diag_value(A, k, j);
     }
     return 0;
 }
@@ -170,10 +173,12 @@ int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     for (j = A->rows - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
+        for (p = A->ptr[j + 1] - 1; p >= A->ptr[j] && A->ix[p] > j; p--);
         if (!unit)
-            x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
+            x[j] /= diag_value(A, p, j);
+        for (; p >= A->ptr[j]; p--) {
+            if (A->ix[p] == j)
+                continue;
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
@@ -208,12 +213,13 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
@@ -221,6 +227,11 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
 
     DTYPE *y = armas_data(x);
 
+    if (alpha != ONE) {
+        for (int i = 0; i < A->rows; i++)
+            y[i] *= alpha;
+    }
+
     // TODO: we assume column vector here; how about a row vector??
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
-- 
2.43.0


From a2509ba625841f9b6d6f35f93eab391e199b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 058/108] fix: sparse add crashes or gives wrong results for
 transposed operands, accumulator overruns or aborts on exact fit

---
 src/include/sparse.h |   2 +-
 src/sparse/accum.c   |  10 +-
 src/sparse/add.c     | 262 +++++++++++++++----------------------------
 src/sparse/splocal.h |   9 ++
 4 files changed, 106 insertions(+), 177 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index f6b7a65..81d3ce4 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -129,7 +129,7 @@ extern void armas_accum_scatter(armas_accum_t *acc, const armas_spvec_t *x,
                                   DTYPE beta, int mark);
 extern void armas_accum_dot(armas_accum_t *acc, int k, const armas_spvec_t *x,
                               const armas_spvec_t *y, int mark);
-extern void armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
+extern int armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
                                  armas_accum_t *acc, int ik, int maxnz);
 extern void armas_accum_clear(armas_accum_t *acc);
 
diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..98f8b1b 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -151,21 +151,25 @@ void armas_accum_dot(armas_accum_t * acc,
 
 /**
  * @brief Update matrix from accumulator.
+ *
+ * @retval  0  Success
+ * @retval -1  Matrix does not have space for the elements
  * @ingroup sparse
  */
-void armas_accum_gather(armas_sparse_t * C,
+int armas_accum_gather(armas_sparse_t * C,
                           DTYPE alpha, armas_accum_t * acc, int ik, int maxnz)
 {
     int k, head;
     C->ptr[ik] = C->nnz;
+    if (acc->tail > maxnz - C->nnz)
+        return -1;
     for (head = 0; head < acc->tail; head++) {
         k = acc->queue[head];
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..ff15699 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -21,174 +21,74 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
+#include <limits.h>
 #include "matrix.h"
 #include "sparse.h"
 
 #include "splocal.h"
 
+// accumulate k'th row (CSR) or column (CSC) of alpha*A
 static
-void add_csr_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+void add_vec(armas_accum_t * spa, DTYPE alpha, const armas_sparse_t * A, int k)
 {
-    int i, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-static
-void add_csr_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-
-        for (j = 0; j < B->rows; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
+    for (int p = A->ptr[k]; p < A->ptr[k + 1]; p++) {
+        armas_accum_addpos(spa, armassp_at(A, p), alpha * armassp_value(A, p), k);
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
 }
 
+// accumulate k'th row (CSR) or column (CSC) of alpha*A^T
 static
-void add_csr_tn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+void add_vec_trans(armas_accum_t * spa, DTYPE alpha, const armas_sparse_t * A, int k)
 {
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (j = 0; j < A->rows; j++) {
-            if ((p = armassp_nz(A, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(A, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
+    int p;
+    for (int j = 0; j < A->nptr; j++) {
+        if ((p = armassp_nz(A, j, k)) < 0)
+            continue;
+        armas_accum_addpos(spa, j, alpha * armassp_value(A, p), k);
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
 }
 
-
+// C = alpha*op(A) + beta*op(B); rows of CSR and columns of CSC matrices are treated alike
 static
-void add_csc_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+int add_compressed(armas_sparse_t * C,
+                   DTYPE alpha, const armas_sparse_t * A,
+                   DTYPE beta, const armas_sparse_t * B,
+                   int bits, armas_accum_t * spa)
 {
-    int i, p;
-    DTYPE val;
-
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+    for (int k = 0; k < C->nptr; k++) {
+        if ((bits & ARMAS_TRANSA) != 0)
+            add_vec_trans(spa, alpha, A, k);
+        else
+            add_vec(spa, alpha, A, k);
+
+        if ((bits & ARMAS_TRANSB) != 0)
+            add_vec_trans(spa, beta, B, k);
+        else
+            add_vec(spa, beta, B, k);
+        // gather data to row (column) k of C
+        if (armas_accum_gather(C, ONE, spa, k, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
-}
-
-static
-void add_csc_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-
-        for (j = 0; j < B->cols; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
+    C->ptr[C->nptr] = C->nnz;
+    return armassp_sort(C);
 }
 
 /**
  * @brief Compute \f$ C = \alpha * A + \beta * B \f$
  *
- * @param[out] C
+ * @param[in,out] C
+ *   On entry result matrix of proper type, size and space allocation. On exit
+ *   the result matrix, elements sorted in ascending index order.
  * @param[in]  alpha
  * @param[in]  A
  * @param[in]  beta
  * @param[in]  B
  * @param[in]  bits
+ *   Operator flags, *ARMAS_TRANSA*, *ARMAS_TRANSB*
  * @param[in,out] wb
  * @param[in]  cf
  *
@@ -203,21 +103,41 @@ int armassp_addto_w(armas_sparse_t * C,
                       const armas_sparse_t * B,
                       int bits, armas_wbuf_t * wb, armas_conf_t * cf)
 {
-    if (!A || !B)
-        return 0;
+    int m, n;
+    size_t need;
+
+    if (!cf)
+        cf = armas_conf_default();
 
-    if (A->kind != B->kind) {
+    if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (A->rows != B->rows || A->cols != B->cols) {
+    m = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    n = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    if (m != ((bits & ARMAS_TRANSB) != 0 ? B->cols : B->rows) ||
+        n != ((bits & ARMAS_TRANSB) != 0 ? B->rows : B->cols)) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
+    need = armas_accum_bytes(A->kind == ARMASSP_CSR ? n : m);
     if (wb && wb->bytes == 0) {
-        wb->bytes = armas_accum_need(C);
+        wb->bytes = need;
         return 0;
     }
-    if (armas_wbytes(wb) < armas_accum_need(C)) {
+    if (!C || C->kind != A->kind) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (C->rows != m || C->cols != n) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (m == 0 || n == 0)
+        return 0;
+
+    if (armas_wbytes(wb) < need) {
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -228,31 +148,15 @@ int armassp_addto_w(armas_sparse_t * C,
     armas_accum_make(&spa, armas_accum_dim(C),
                        armas_wptr(wb), armas_wbytes(wb));
 
-    switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
-    case ARMAS_TRANSB:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nt(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nt(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    case ARMAS_TRANSA:
-        if (A->kind == ARMASSP_CSC) {
-        } else {
-            add_csr_tn(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    default:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nn(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nn(C, alpha, A, beta, B, &spa);
-        }
-        break;
+    int stat = add_compressed(C, alpha, A, beta, B, bits, &spa);
+    if (stat < 0) {
+        // result did not fit; leave valid matrix without elements
+        armassp_zero(C);
+        cf->error = -stat;
     }
     // release used wbspace
     armas_wsetpos(wb, pos);
-    return 0;
+    return stat;
 }
 
 /**
@@ -270,26 +174,38 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
-    if (!A || !B)
-        return C;
+    if (!cf)
+        cf = armas_conf_default();
 
     if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
         return C;
 
-    if (!armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
+    // allocate target matrix; size estimate 
+    int m = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    int n = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    if (A->nnz > INT_MAX - B->nnz) {
+        cf->error = ARMAS_ESIZE;
         return C;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    C = armassp_new(m, n, A->nnz + B->nnz, A->kind);
     if (!C) {
-        armas_wrelease(&work);
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
+    if (m == 0 || n == 0)
+        return C;
 
-    armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+    if (!armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    int stat = armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
     armas_wrelease(&work);
+    if (stat < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
     return C;
 }
 #else
diff --git a/src/sparse/splocal.h b/src/sparse/splocal.h
index 4980c6e..204b808 100644
--- a/src/sparse/splocal.h
+++ b/src/sparse/splocal.h
@@ -154,4 +154,13 @@ int armassp_init_arrays(
     return 0;
 }
 
+// @brief Make compressed matrix without elements
+static inline
+void armassp_zero(armas_sparse_t *A)
+{
+    A->nnz = 0;
+    for (int k = 0; k <= A->nptr; k++)
+        A->ptr[k] = 0;
+}
+
 #endif // ARMAS_SPLOCAL_H
-- 
2.43.0


From 95687829b8e3d2cd40cd5c51f62979ac906c4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 059/108] fix: sparse multiply returns empty result, ignores
 alpha and has wrong bounds for transposed operands

---
 src/sparse/mult.c | 133 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 94 insertions(+), 39 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..b7c7250 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -21,7 +21,7 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
+#include <limits.h>
 #include "matrix.h"
 #include "sparse.h"
 // local mappings to type spesific names
@@ -50,7 +50,8 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -79,7 +80,8 @@ int mult_csr_nt(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -100,7 +102,7 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
@@ -109,11 +111,12 @@ int mult_csr_tn(armas_sparse_t * C,
             armas_accum_scatter(spa, &b, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[A->cols] = C->nnz;
+    C->nptr = A->cols;
     return 0;
 }
 
@@ -143,11 +146,12 @@ int mult_csr_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -171,7 +175,8 @@ int mult_csc_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(B, p), i);
         }
         // gather data to C[:,i] column
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -200,7 +205,8 @@ int mult_csc_tn(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -221,7 +227,7 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < B->rows; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
@@ -230,7 +236,8 @@ int mult_csc_nt(armas_sparse_t * C,
             armas_accum_scatter(spa, &a, armassp_value(B, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -251,8 +258,8 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
@@ -264,7 +271,8 @@ int mult_csc_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[:,i] col
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -276,6 +284,8 @@ size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
     int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
+    if (n == 0)
+        return 0;
     return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
 }
 
@@ -284,7 +294,7 @@ size_t armassp_mult_nnz(const armas_sparse_t * A,
  *
  * @param[in,out]  C
  *   On entry result matrix with proper space allocation. On exit the
- *   result matrix.
+ *   result matrix, elements sorted in ascending index order.
  * @param[in] alpha
  *   Scalar
  * @param[in] A
@@ -311,6 +321,15 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+
+    if (!A || !B || !C || A->kind != B->kind || A->kind != C->kind ||
+        A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -335,7 +354,7 @@ int armassp_multto_w(armas_sparse_t * C,
     }
     if (!ok || !w) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     // get estimate for needed work space
@@ -343,24 +362,19 @@ int armassp_multto_w(armas_sparse_t * C,
         w->bytes = armas_accum_need(C);
         return 0;
     }
-    // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
-        cf->error = ARMAS_ESIZE;
-        return -2;
-    }
+    if (m == 0 || n == 0)
+        return 0;
 
     size_t sz = armas_accum_need(C);
     if (armas_wbytes(w) < sz) {
         cf->error = ARMAS_EWORK;
-        return -3;
+        return -ARMAS_EWORK;
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    // get current position in workspace
+    size_t pos = armas_wpos(w);
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wptr(w), armas_wbytes(w));
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -389,6 +403,15 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    if (stat < 0) {
+        // result did not fit; leave valid matrix without elements
+        armassp_zero(C);
+        cf->error = -stat;
+    } else {
+        armassp_sort(C);
+    }
+    // release used workspace
+    armas_wsetpos(w, pos);
     return stat;
 }
 
@@ -416,20 +439,52 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  int flags, armas_conf_t * cf)
 {
     armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_wbuf_t work = ARMAS_WBNULL;
+    int m, n, stat;
+    size_t cnz, maxnz;
+
+    if (!cf)
+        cf = armas_conf_default();
 
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
         return (armas_sparse_t *) 0;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
-    if (!C) {
-        cf->error = ARMAS_EMEMORY;
-        return (armas_sparse_t *) 0;
+    m = (flags & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    n = (flags & ARMAS_TRANSB) != 0 ? B->rows : B->cols;
+
+    if (m == 0 || n == 0)
+        return armassp_new(m, n, 0, A->kind);
+
+    // allocate target matrix; start from size estimate 
+    maxnz = (size_t)m * (size_t)n < INT_MAX ? (size_t)m * (size_t)n : INT_MAX;
+    cnz = armassp_mult_nnz(A, B, flags);
+    for (;;) {
+        cnz = cnz < maxnz ? cnz : maxnz;
+        C = armassp_new(m, n, (int)cnz, A->kind);
+        if (!C) {
+            cf->error = ARMAS_EMEMORY;
+            return C;
+        }
+        work.bytes = 0;
+        stat = armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+        if (stat == 0 && work.bytes > 0) {
+            if (armas_walloc(&work, work.bytes)) {
+                stat = armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+                armas_wrelease(&work);
+            } else {
+                stat = -ARMAS_EMEMORY;
+                cf->error = ARMAS_EMEMORY;
+            }
+        }
+        if (stat == 0)
+            return C;
+        armassp_free(C);
+        // retry with larger target if result did not fit
+        if (stat != -ARMAS_ESIZE || cnz == maxnz)
+            return (armas_sparse_t *) 0;
+        cnz = 2 * cnz + 64;
     }
-
-    return C;
 }
 #else
 #warning "Missing defines. No code!"
-- 
2.43.0


From f5f6dfc83cf8115e4bef4e18a9da27eca18420ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 060/108] fix: conjugate gradient solvers destroy exact
 solutions, miscount iterations and report wrong residuals

---
 src/sparse/cgne.c   | 38 +++++++++++++++++++++-----------------
 src/sparse/cgnr.c   | 36 ++++++++++++++++++++----------------
 src/sparse/cgrad.c  | 25 +++++++++++++++----------
 src/sparse/pcgrad.c | 45 +++++++++++++++++++++++++++------------------
 4 files changed, 83 insertions(+), 61 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..ead74c3 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -126,7 +126,7 @@ int armassp_cgne_w(armas_dense_t * x,
 {
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
-    int niter, m, n, maxiter;
+    int niter, m, n, maxiter, converged;
 
     if (!cf)
         cf = armas_conf_default();
@@ -158,8 +158,8 @@ int armassp_cgne_w(armas_dense_t * x,
     size_t pos = armas_wpos(wb);
 
     maxiter = cf->maxiter > 0 ? cf->maxiter : 2 * A->rows;
-    rstop = cf->stop != ZERO ? (DTYPE) cf->stop : ZERO;
-    rmult = cf->smult != ZERO ? (DTYPE) cf->smult : EPS;
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop : ZERO;
+    rmult = cf->smult > ZERO ? (DTYPE) cf->smult : EPS;
 
     m = A->rows;
     n = A->cols;
@@ -167,11 +167,12 @@ int armassp_cgne_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(wb, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
+    dot_r1 = armas_dot(&r, &r, cf);
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
+        rstop = rmult * (rmult * dot_r1);
     else
         rstop *= rstop;
 
@@ -185,12 +186,14 @@ int armassp_cgne_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    converged = dot_r1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&p, &p, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -199,9 +202,7 @@ int armassp_cgne_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        converged = dot_r1 <= rstop;
         beta = dot_r1 / dot_r;
         // p = beta*p + A^T*r;
         armassp_mvmult(beta, &p, ONE, A, &r, ARMAS_TRANS, cf);
@@ -212,7 +213,11 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
@@ -232,20 +237,19 @@ int armassp_cgne(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
-    if (armassp_cgne_w(x, A, b, &W, cf) < 0) {
-        cf->error = ARMAS_EWORK;
-        return -1;
+    if ((stat = armassp_cgne_w(x, A, b, &W, cf)) < 0) {
+        return stat;
     }
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgne_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..2942908 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -92,8 +92,8 @@ int check_parms(const armas_dense_t * x,
  * \f$ smult * {\Vert r_0 \Vert}_2 \f$ otherwise value
  * \f$ \epsilon {\Vert r_0 \Vert}_2 \f$ is used.
  *
- * Residual on iterattion k is \f$ r_k = b - A x_k \f$ and residual error
- * \f$ \sqrt {\Vert r_0 \Vert}_2 \f$.
+ * Residual on iterattion k is the residual of the normal equations,
+ * \f$ z_k = A^T (b - A x_k) \f$, and residual error \f$ {\Vert z_k \Vert}_2 \f$.
  *
  * The maximum iteration count is *cf.maxiter* or \f$ 2 M(A) \f$ where M(A) is
  * row count of A matrix.
@@ -112,7 +112,7 @@ int armassp_cgnr_w(armas_dense_t * x,
 {
     armas_dense_t p, Ap, r, z;
     DTYPE dot_z, dot_p, alpha, beta, dot_z1, *t, rstop, rmult;
-    int m, n, maxiter, niter;
+    int m, n, maxiter, niter, converged;
 
     if (!cf)
         cf = armas_conf_default();
@@ -150,7 +150,7 @@ int armassp_cgnr_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
     // no absolute stopping criteria; make it epsilon^2*(r0, r0) 
@@ -174,12 +174,15 @@ int armassp_cgnr_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // --------------------------------------------------------------------
-    dot_z1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_z1 = armas_dot(&z, &z, cf);
+    converged = dot_z1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_z = armas_dot(&z, &z, cf);
+        dot_z = dot_z1;
         dot_p = armas_dot(&Ap, &Ap, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_z / dot_p;
 
         // x = x + alpha*p
@@ -190,9 +193,7 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &z, ONE, A, &r, ARMAS_TRANS, cf);
 
         dot_z1 = armas_dot(&z, &z, cf);
-        if (dot_z1 < rstop) {
-            break;
-        }
+        converged = dot_z1 <= rstop;
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -202,7 +203,11 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
@@ -222,20 +227,19 @@ int armassp_cgnr(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
-    if (armassp_cgnr_w(x, A, b, &W, cf) < 0) {
-        cf->error = ARMAS_EWORK;
-        return -1;
+    if ((stat = armassp_cgnr_w(x, A, b, &W, cf)) < 0) {
+        return stat;
     }
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgnr_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..3cd1224 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -111,7 +111,7 @@ int armassp_cgrad_w(armas_dense_t * x,
                       const armas_dense_t * b,
                       int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int maxiter, niter, m;
+    int maxiter, niter, m, converged;
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
 
@@ -150,11 +150,12 @@ int armassp_cgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
+    dot_r1 = armas_dot(&r, &r, cf);
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
+        rstop = rmult * (rmult * dot_r1);
     else
         rstop *= rstop;
 
@@ -167,12 +168,14 @@ int armassp_cgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    converged = dot_r1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&Ap, &p, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -181,9 +184,7 @@ int armassp_cgrad_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        converged = dot_r1 <= rstop;
         beta = dot_r1 / dot_r;
         // p = beta*p + r;
         armas_axpby(beta, &p, ONE, &r, cf);
@@ -194,7 +195,11 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..d4c53fe 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -108,6 +108,8 @@ int check_parms(const armas_dense_t * x,
  * For details see: Yousef Saad, *Iterative Methods for Sparse Linear System*, 2nd Edition
  * section 9.1
  *
+ * Stopping criteria is as in armassp_cgrad_w.
+ *
  * On exit *cf.numiters* holds the number of iterations and *cf.residual* holds
  * the final residual error.
  *
@@ -122,15 +124,15 @@ int armassp_pcgrad_w(armas_dense_t * x,
                        armassp_precond_t * M,
                        int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int m, niter, maxiter;
-    DTYPE dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
+    int m, niter, maxiter, converged;
+    DTYPE dot_r, dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
     armas_dense_t Ap, p, z, r;
 
     if (!cf)
         cf = armas_conf_default();
     if (!A) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     m = A->rows;
@@ -141,11 +143,11 @@ int armassp_pcgrad_w(armas_dense_t * x,
     }
     if (check_parms(x, A, b) == 0) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (armas_wbytes(W) < PCGRAD_WSIZE(m)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     if (A->rows == 0 || A->cols == 0)
         return 0;
@@ -156,14 +158,15 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
     rstop = cf->stop > ZERO ? cf->stop : ZERO;
     maxiter = cf->maxiter > 0 ? cf->maxiter : 2 * m;
     rmult = cf->smult > ZERO ? cf->smult : EPS;
+    dot_r = armas_dot(&r, &r, cf);
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
+        rstop = rmult * (rmult * dot_r);
     else
         rstop *= rstop;
 
@@ -182,12 +185,15 @@ int armassp_pcgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_rz1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_rz1 = armas_dot(&r, &z, cf);
+    converged = dot_r <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
         dot_p = armas_dot(&Ap, &p, cf);
-        dot_rz = armas_dot(&r, &z, cf);
+        dot_rz = dot_rz1;
+        if (dot_p == ZERO || dot_rz == ZERO)
+            break;
         alpha = dot_rz / dot_p;
 
         // x = x + alpha*p
@@ -198,9 +204,8 @@ int armassp_pcgrad_w(armas_dense_t * x,
         M->precond(&z, M, &r, cf);
 
         dot_rz1 = armas_dot(&r, &z, cf);
-        if (dot_rz1 < rstop) {
-            break;
-        }
+        dot_r = armas_dot(&r, &r, cf);
+        converged = dot_r <= rstop;
         beta = dot_rz1 / dot_rz;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -208,9 +213,13 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // -------------------------------------------------------------------------
 
     cf->numiters = niter;
-    cf->residual = SQRT(dot_rz1);
+    cf->residual = SQRT(dot_r);
 
     armas_wsetpos(W, wpos);
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
@@ -232,18 +241,18 @@ int armassp_pcgrad(armas_dense_t * x,
     }
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
     // get working size
-    if (armassp_pcgrad_w(x, A, b, M, flags, &W, cf) < 0) {
-        return -1;
+    if ((stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf)) < 0) {
+        return stat;
     }
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf);
     armas_wrelease(&W);
-- 
2.43.0


From 83709297cb7b659c96213f8982b5a3319c7254fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 061/108] fix: GMRES exceeds maxiter, overruns small systems,
 ignores stopping criteria and never reports residual or failure;
 preconditioner was not applied

---
 src/sparse/gmres.c  | 143 +++++++++++++++++++++++++-------------------
 src/sparse/pgmres.c | 132 +++++++++++++++++++++-------------------
 2 files changed, 155 insertions(+), 120 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..70de0d9 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -29,7 +29,6 @@
 #include "sparse.h"
 #include "internal.h"
 #include "internal_lapack.h"
-#include "partition.h"
 #include "splocal.h"
 
 /*
@@ -94,38 +93,32 @@ int gmres_hh_fused(armas_dense_t * x,
                    armas_dense_t * w,
                    DTYPE * res, DTYPE stop, armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
+    armas_dense_t p01, p11, p21, P0, p1;
     armas_dense_t T, z, beta;
     DTYPE _beta, u, h0, c, s, r;
+    int n = P->rows;
     int m = P->cols - 1;
 
-    EMPTY(P00);
-
     // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
-
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
+    armas_column(&p1, P, 0);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix_unsafe(&p11, P, 0, 0, 1, 1);
+    armas_submatrix_unsafe(&p21, P, 1, 0, n - 1, 1);
+    armas_house(&p11, &p21, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+    while (nrot < m && converged == 0) {
+        // first reflectors P_1..P_j and next column
+        int j = nrot + 1;
+        armas_submatrix_unsafe(&P0, P, 0, 0, n, j);
+        armas_column(&p1, P, j);
+        armas_submatrix_unsafe(&p01, P, 0, j, j, 1);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, nrot, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = Av; p1 == z
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
@@ -137,11 +130,19 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        _beta = ZERO;
+        if (j < n) {
+            armas_submatrix_unsafe(&p11, P, j, j, 1, 1);
+            armas_submatrix_unsafe(&p21, P, j + 1, j, n - j - 1, 1);
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
+        // breakdown; new direction does not extend the solution
+        if (r == ZERO)
+            break;
         armas_set_unsafe(&p01, p01.rows - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
@@ -150,20 +151,15 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
+        converged = ABS(armas_get_unsafe(y, nrot, 0)) <= stop;
         // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
     }
 
-    if (nrot < m) {
-        m = nrot;
-    }
+    m = nrot;
     // residual of |beta*e0 - H*y| in y[m]
     *res = ABS(armas_get_unsafe(y, m, 0));
+    if (m == 0)
+        return 0;
 
     // 2. solve for y; len(y) == cols(H) == m;
     armas_submatrix(&T, P, 0, 1, m, m);
@@ -188,6 +184,8 @@ int gmres_hh_fused(armas_dense_t * x,
 
 /* 
  * Main loop for GMRES. Workspace needed is approxmately (n+3)*(m+2) elements.
+ *
+ * On exit value of res is the final residual. Returns number of iterations.
  */
 static
 int gmres_hh_loop_fused(armas_dense_t * x,
@@ -195,10 +193,10 @@ int gmres_hh_loop_fused(armas_dense_t * x,
                         const armas_dense_t * b,
                         int maxiter,
                         int m,
-                        DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
+                        DTYPE * res, DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    armas_dense_t P, w, C, S, y;
-    DTYPE nrm_r0, nrm_r1, rstop;
+    armas_dense_t P, Pm, w, C, S, y;
+    DTYPE nrm_r1, rstop;
     int n = A->cols;
 
     size_t pos = armas_wpos(W);
@@ -221,23 +219,27 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     // w = b - A*x
     armas_copy(&w, b, cf);
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
-    nrm_r0 = armas_nrm2(&w, cf);
-
-    rstop = stopping && *stopping != ZERO ?
-        *stopping : EPS * nrm_r0 * A->cols;
-
-    int niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
-        niter +=
-            gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
+    nrm_r1 = armas_nrm2(&w, cf);
+
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop
+        : (cf->smult > ZERO ? (DTYPE) cf->smult * nrm_r1 : EPS * nrm_r1 * A->cols);
+
+    int k, niter = 0;
+    while (nrm_r1 > rstop && niter < maxiter) {
+        // at most maxiter iterations
+        k = maxiter - niter < m ? maxiter - niter : m;
+        armas_submatrix_unsafe(&Pm, &P, 0, 0, n, k + 1);
+        k = gmres_hh_fused(x, A, b, &Pm, &C, &S, &y, &w, &nrm_r1, rstop, cf);
+        niter += k;
+        if (k == 0)
             break;
-        }
         // compute residual; w = b - A*x
         armas_copy(&w, b, cf);
         armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     }
 
+    *res = nrm_r1;
+    *stopping = rstop;
     armas_wsetpos(W, pos);
     return niter;
 }
@@ -389,19 +391,23 @@ int GMRES_WSIZE_MGS(int n, int m)
 #endif
 
 static inline
-int GMRES_WSIZE(int n, int m)
+size_t GMRES_WSIZE(int n, int m)
 {
-    //return (n*m + (m+1)*m + n)*sizeof(DTYPE);
-    return (n + 3) * (m + 2) * sizeof(DTYPE);
+    return ((size_t)n + 3) * ((size_t)m + 2) * sizeof(DTYPE);
 }
 
+// restart parameter for workspace of w elements; no more than requested m or
+// size of the system
 static inline
-int compute_m(int n, int w)
+int compute_m(int n, int m, size_t w)
 {
-    if (w < n)
+    size_t me = w / ((size_t)n + 3);
+    if (me < 3)
         return 0;
-    int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    me -= 2;
+    if (me < (size_t)m)
+        m = (int)me;
+    return m < n ? m : n;
 }
 
 
@@ -444,6 +450,10 @@ int check_params(armas_dense_t * x,
  * For details see: Yousef Saad, *Iterative Methods for Sparse Linear System*, 2nd Edition
  * sections 6.5 and algorithm 6.9.
  *
+ * Iteration stops when *cf.maxiter* iterations is reached or residual error is
+ * no more than *cf.stop*, or *cf.smult* times the initial residual error if
+ * *cf.stop* is not set.
+ *
  * @retval  0  Success
  * @retval <0 Failure
  * @ingroup sparse
@@ -456,6 +466,10 @@ int armassp_gmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     int n = A->rows;
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
@@ -466,19 +480,25 @@ int armassp_gmres_w(armas_dense_t * x,
     }
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
+    if (n == 0)
+        return 0;
     // estimate of m
-    int me = compute_m(n, armas_wbytes(wb) / sizeof(DTYPE));
+    int me = compute_m(n, m, armas_wbytes(wb) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
-    DTYPE res = ZERO;
-    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
+    DTYPE res = ZERO, rstop = ZERO;
+    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, &rstop, wb, cf);
     cf->residual = res;
     cf->numiters = niter;
+    if (res > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
@@ -498,15 +518,18 @@ int armassp_gmres(armas_dense_t * x,
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
-    int nb = GMRES_WSIZE(A->cols, m);
+    if (A->rows == 0)
+        return 0;
+
+    size_t nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_gmres_w(x, A, b, &W, cf);
     armas_wrelease(&W);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..27e78c3 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -29,7 +29,6 @@
 #include "sparse.h"
 #include "internal.h"
 #include "internal_lapack.h"
-#include "partition.h"
 #include "splocal.h"
 
 /*
@@ -94,41 +93,35 @@ int pgmres_hh_pfused(armas_dense_t * x,
                      armas_dense_t * w,
                      DTYPE * res, DTYPE stop, armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
+    armas_dense_t p01, p11, p21, P0, p1;
     armas_dense_t T, z, beta;
     DTYPE _beta, u, h0, c, s, r;
+    int n = P->rows;
     int m = P->cols - 1;
 
-    EMPTY(P00);
-
     // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
-
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
+    armas_column(&p1, P, 0);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix_unsafe(&p11, P, 0, 0, 1, 1);
+    armas_submatrix_unsafe(&p21, P, 1, 0, n - 1, 1);
+    armas_house(&p11, &p21, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+    while (nrot < m && converged == 0) {
+        // first reflectors P_1..P_j and next column
+        int j = nrot + 1;
+        armas_submatrix_unsafe(&P0, P, 0, 0, n, j);
+        armas_column(&p1, P, j);
+        armas_submatrix_unsafe(&p01, P, 0, j, j, 1);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, nrot, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = AM^-1*v; p1 == z
-        M->precond(&p1, M, &p1, cnf);
+        M->precond(w, M, w, cnf);
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
         // z = P_j*...P_1*Av
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
@@ -138,11 +131,19 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        _beta = ZERO;
+        if (j < n) {
+            armas_submatrix_unsafe(&p11, P, j, j, 1, 1);
+            armas_submatrix_unsafe(&p21, P, j + 1, j, n - j - 1, 1);
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
+        // breakdown; new direction does not extend the solution
+        if (r == ZERO)
+            break;
         armas_set_unsafe(&p01, p01.rows - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
@@ -151,20 +152,15 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
+        converged = ABS(armas_get_unsafe(y, nrot, 0)) <= stop;
         // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
     }
 
-    if (nrot < m) {
-        m = nrot;
-    }
+    m = nrot;
     // residual of |beta*e0 - H*y| in y[m]
     *res = ABS(armas_get_unsafe(y, m, 0));
+    if (m == 0)
+        return 0;
 
     // 2. solve for y; len(y) == cols(H) == m;
     armas_submatrix(&T, P, 0, 1, m, m);
@@ -195,18 +191,23 @@ int pgmres_hh_pfused(armas_dense_t * x,
 #endif
 
 static inline
-int GMRES_WSIZE(int n, int m)
+size_t GMRES_WSIZE(int n, int m)
 {
-    return (n + 3) * (m + 2) * sizeof(DTYPE);
+    return ((size_t)n + 3) * ((size_t)m + 2) * sizeof(DTYPE);
 }
 
+// restart parameter for workspace of w elements; no more than requested m or
+// size of the system
 static inline
-int compute_m(int n, int w)
+int compute_m(int n, int m, size_t w)
 {
-    if (w < n)
+    size_t me = w / ((size_t)n + 3);
+    if (me < 3)
         return 0;
-    int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    me -= 2;
+    if (me < (size_t)m)
+        m = (int)me;
+    return m < n ? m : n;
 }
 
 
@@ -268,34 +269,38 @@ int armassp_pgmres_w(armas_dense_t * x,
                        const armassp_precond_t * M,
                        armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int n, m, me, maxiter, niter;
-    armas_dense_t P, w, C, S, y;
-    DTYPE nrm_r0, nrm_r1, rstop, *t;
+    int n, m, me, maxiter, niter, k;
+    armas_dense_t P, Pm, w, C, S, y;
+    DTYPE nrm_r1, rstop, *t;
 
     if (!cf)
         cf = armas_conf_default();
     if (!A) {
-        return -1;
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
     }
 
     n = A->cols;
     m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
-    if (W->bytes == 0) {
+    if (W && W->bytes == 0) {
         // get working size
         W->bytes = GMRES_WSIZE(n, m);
         return 0;
     }
-    if (!check_params(x, A, b)) {
+    if (!check_params(x, A, b) || !M || !M->precond) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
+    if (n == 0)
+        return 0;
     // estimate of m
-    me = compute_m(n, armas_wbytes(W) / sizeof(DTYPE));
+    me = compute_m(n, m, armas_wbytes(W) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
-    maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
+    m = me;
+    maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
     // ------------------------------------------------------------------------
     size_t pos = armas_wpos(W);
@@ -318,20 +323,21 @@ int armassp_pgmres_w(armas_dense_t * x,
     // w = b - A*x
     armas_copy(&w, b, cf);
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
-    nrm_r0 = armas_nrm2(&w, cf);
+    nrm_r1 = armas_nrm2(&w, cf);
 
     rstop = cf->stop > ZERO ? cf->stop
-        : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0);
+        : (cf->smult > ZERO ? cf->smult * nrm_r1 : EPS * nrm_r1);
 
     // ------------------------------------------------------------------------
-    nrm_r1 = ZERO;
     niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
-        niter +=
-            pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
+    while (nrm_r1 > rstop && niter < maxiter) {
+        // at most maxiter iterations
+        k = maxiter - niter < m ? maxiter - niter : m;
+        armas_submatrix_unsafe(&Pm, &P, 0, 0, n, k + 1);
+        k = pgmres_hh_pfused(x, A, b, M, &Pm, &C, &S, &y, &w, &nrm_r1, rstop, cf);
+        niter += k;
+        if (k == 0)
             break;
-        }
         // compute residual; w = b - A*x
         armas_copy(&w, b, cf);
         armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
@@ -341,7 +347,10 @@ int armassp_pgmres_w(armas_dense_t * x,
 
     cf->residual = nrm_r1;
     cf->numiters = niter;
-
+    if (nrm_r1 > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
@@ -362,15 +371,18 @@ int armassp_pgmres(armas_dense_t * x,       /*  */
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
-    int nb = GMRES_WSIZE(A->cols, m);
+    if (A->rows == 0)
+        return 0;
+
+    size_t nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_pgmres_w(x, A, b, M, &W, cf);
     armas_wrelease(&W);
-- 
2.43.0


From 989287187769a7ac963e78497afff5099038427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 062/108] fix: incomplete factorizations abort on missing
 pivots, ILU preconditioner applied factors in wrong order

---
 src/sparse/icholz.c | 63 ++++++++++++++++++++++++---------------------
 src/sparse/iluz.c   | 31 ++++++++++++++--------
 2 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..60c8bb5 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -22,7 +22,6 @@
 // -----------------------------------------------------------------------------
 
 #include <math.h>
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 #include "splocal.h"
@@ -61,11 +60,11 @@ int csr_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0 || !(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ESINGULAR;
 
-        a11 = sqrt(armassp_value(A, p0));
+        a11 = SQRT(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11; A22 = A22 - l21*l21^T
         for (k = i + 1; k < A->rows; k++) {
@@ -76,7 +75,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -101,11 +100,11 @@ int csr_illtz_upper(armas_sparse_t * A)
 
     // compute u11 = sqrt(a11); u12 = a12/u11; A22 = A22 - u12*u12^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0 || !(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ESINGULAR;
 
-        a11 = sqrt(armassp_value(A, p0));
+        a11 = SQRT(armassp_value(A, p0));
         Ue[p0] = a11;
 
         // u12^T = u12^T/a11;
@@ -118,7 +117,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -150,11 +149,11 @@ int csc_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->cols; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0 || !(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ESINGULAR;
 
-        a11 = sqrt(armassp_value(A, p0));
+        a11 = SQRT(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11;
         for (p = p0 + 1; p < armassp_index(A, i + 1); p++)
@@ -166,7 +165,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -199,11 +198,11 @@ int csc_illtz_upper(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0 || !(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ESINGULAR;
 
-        a11 = sqrt(armassp_value(A, p0));
+        a11 = SQRT(armassp_value(A, p0));
         Ue[p0] = a11;
         // u12^T = u12^T/a11; A22 = A22 - u12*u12^T
         for (k = i + 1; k < A->cols; k++) {
@@ -214,7 +213,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -229,25 +228,30 @@ int csc_illtz_upper(armas_sparse_t * A)
 }
 
 /**
+ * @brief Incomplete Cholesky factorization in place.
+ *
+ * @retval  0  Success
+ * @retval <0  Failure, matrix is not square and compressed or it has no
+ *   positive pivot. Matrix elements may have been changed.
  */
 int armassp_icholz(armas_sparse_t * A, int flags)
 {
+    if (!A || (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC) ||
+        A->rows != A->cols)
+        return -ARMAS_EINVAL;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER)) {
 
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_upper(A);
-        else
-            csc_illtz_upper(A);
-        break;
+            return csr_illtz_upper(A);
+        return csc_illtz_upper(A);
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_lower(A);
-        else
-            csc_illtz_lower(A);
+            return csr_illtz_lower(A);
+        return csc_illtz_lower(A);
     }
-    return 0;
 }
 
 
@@ -297,6 +301,7 @@ int precond_icholz_partial(armas_dense_t * z,
  * For details see: Saad, *Iterative Methods for Sparse Linear Systems*, 2nd Ed.
  *
  * @retval  0  Success
+ * @retval <0  Failure
  */
 int armassp_init_icholz(armassp_precond_t * P, armas_sparse_t * A,
                           int flags)
diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..51e8ea9 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -21,7 +21,6 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -59,9 +58,9 @@ int csr_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->rows; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(L, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(L, i, i)) < 0 || armassp_value(L, p0) == ZERO)
+            return -ARMAS_ESINGULAR;
         a11 = armassp_value(L, p0);
 
         // l21 = a21/a11; A22 = A22 - l21*a12^T
@@ -101,9 +100,9 @@ int csc_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->cols; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a21
-        assert(armassp_at(L, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a21
+        if ((p0 = armassp_nz(L, i, i)) < 0 || armassp_value(L, p0) == ZERO)
+            return -ARMAS_ESINGULAR;
         a11 = armassp_value(L, p0);
 
         // l21 = a21/a11
@@ -136,10 +135,18 @@ int csc_iluz(armas_sparse_t * L)
     return 0;
 }
 
+/**
+ * @brief Incomplete LU factorization in place.
+ *
+ * @retval  0  Success
+ * @retval <0  Failure, matrix is not square and compressed or it has zero
+ *   pivot. Matrix elements may have been changed.
+ */
 int armassp_iluz(armas_sparse_t * L)
 {
-    if (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC)
-        return -1;
+    if (!L || (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC) ||
+        L->rows != L->cols)
+        return -ARMAS_EINVAL;
 
     if (L->kind == ARMASSP_CSR) {
         return csr_iluz(L);
@@ -154,9 +161,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_mcopy(z, x, 0, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = (LU)^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
@@ -172,6 +179,7 @@ int precond_ilu(armas_dense_t * z,
  * For details see: Saad, *Iterative Methods for Sparse Linear Systems*, 2nd Ed.
  *
  * @retval  0  Success
+ * @retval <0  Failure
  */
 int armassp_init_iluz(armassp_precond_t * P, armas_sparse_t * A)
 {
@@ -180,6 +188,7 @@ int armassp_init_iluz(armassp_precond_t * P, armas_sparse_t * A)
         P->M = A;
         P->flags = 0;
         P->precond = precond_ilu;
+        P->partial = 0;
     }
     return stat;
 }
-- 
2.43.0


From 21eca65ff3f40ecbd1c7e7bca1c432ffe08bb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 063/108] fix: unscaled Householder reflector of vector with
 zero tail was not orthogonal

---
 src/lapack/house.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..ae8d51a 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -184,12 +184,15 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
     DTYPE normx, x0val, alpha, beta, delta, sign;
 
     normx = armas_nrm2(x1, cf);
+    x0val = armas_get_unsafe(x0, 0, 0);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        // H = I, or H = I - 2*e_0*e_0^T to change sign
+        int neg = (flags & ARMAS_NONNEG) != 0 && x0val < 0.0;
+        armas_set_unsafe(x0, 0, 0, neg ? ONE : ZERO);
+        armas_set_unsafe(tau, 0, 0, neg ? -x0val : x0val);
         return 0;
     }
 
-    x0val = armas_get_unsafe(x0, 0, 0);
     sign = SIGN(x0val) ? -1.0 : 1.0;
 
     beta = HYPOT(x0val, normx);
-- 
2.43.0


From 9f0085880a7855d6ad404949a84ccc729c6b8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 064/108] fix: CGNR computes too small workspace

---
 src/sparse/cgnr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 2942908..d356cc6 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,7 +47,7 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  ((2*(n) + 2*(m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
-- 
2.43.0


From 4f4e4c5a7933dee2bc42b1ba7ff4b2dc098f8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 065/108] fix: element-wise add and scale of triangular parts
 changed wrong elements and wrote outside of the matrix

---
 src/blas/madd.c   | 4 ++--
 src/blas/mscale.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..0b49826 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            armas_submatrix_unsafe(&C, A, 0, c, c+1-n < A->rows ? c+1-n : A->rows, 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
@@ -94,7 +94,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c < A->rows-n; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 1633f13..143ccdc 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -143,8 +143,8 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        for (c = n; c < m->cols; c++) {
+            armas_submatrix_unsafe(&C, m, 0, c, c+1-n < m->rows ? c+1-n : m->rows, 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
@@ -152,7 +152,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c < m->rows-n; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From 4b2b06c05b947ff89696dd65a359d36c71c1bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 066/108] fix: upper trapezoidal apply, iterate and make_trm
 accessed rows outside of the matrix

---
 src/blas/mapply.c | 6 +++---
 src/blas/mset.c   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From b6611dc1a4d6a84963a62c7cc2d0ea7bd63a8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 067/108] fix: failed pivot vector and accumulator allocations
 left the object undefined

---
 src/include/armas.h | 2 ++
 src/sparse/accum.c  | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index f44e7aa..5de8743 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -419,6 +419,8 @@ armas_pivot_t *armas_pivot_init(armas_pivot_t *ptable, int sz)
 
     ptable->indexes = (int *)calloc(sz, sizeof(int));
     if (!ptable->indexes) {
+        ptable->npivots = 0;
+        ptable->owner = 0;
         return (armas_pivot_t *)0;
     }
     ptable->npivots = sz;
diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index 98f8b1b..f460691 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -57,8 +57,12 @@ int armas_accum_allocate(armas_accum_t * acc, int n)
     // single block of n DTYPE and 2*n ints
     size_t nb = armas_accum_bytes(n);
     void *ptr = calloc(nb, 1);
-    if (!ptr)
+    if (!ptr) {
+        acc->elems = (DTYPE *) 0;
+        acc->mark = acc->queue = (int *) 0;
+        acc->nz = acc->tail = 0;
         return -1;
+    }
     armas_accum_init(acc, n, ptr);
     return 0;
 }
-- 
2.43.0


From ae13db25e62b4c86cbe0ba8750edc7e8bbd46b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 068/108] fix: singular values of 1x1 bidiagonal matrix read
 the empty off-diagonal

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 3b30a96..7947a23 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -47,7 +47,7 @@ void estimate_sval(DTYPE * smin, DTYPE * smax, armas_dense_t * D,
     int k, N = armas_size(D);
 
     d1 = ABS(armas_get_at_unsafe(D, 0));
-    e1 = ABS(armas_get_at_unsafe(E, 0));
+    e1 = N > 1 ? ABS(armas_get_at_unsafe(E, 0)) : ZERO;
     e0 = e1;
     ssmax = d1 > e1 ? d1 : e1;
     mu = ssmin = d1;
-- 
2.43.0


From fb0718867909d0c97f72facf40bb1fb35b8aed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 069/108] fix: iamin of a row vector skipped elements of other
 rows

---
 src/blas/iamax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blas/iamax.c b/src/blas/iamax.c
index dd639b3..d4a5995 100644
--- a/src/blas/iamax.c
+++ b/src/blas/iamax.c
@@ -126,7 +126,8 @@ int vec_iamin2(const armas_dense_t *X,  int N)
 
     xinc = X->rows == 1 ? X->step : 1;
     ep = X->elems;
-    min = ABS(*ep++);
+    min = ABS(*ep);
+    ep += xinc;
     ix = 0;
     for (i = 1; i < N; ++i, ep += xinc) {
         c0 = ABS(*ep);
-- 
2.43.0


From 28220a17d008a0c7734ffddc9e814aaeee948b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 070/108] fix: lqreflector required a block reflector of the
 number of columns

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 44e3e80..f6f8ee3 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -313,7 +313,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 5e0b05503f6aa5c00a5b970a4a5d4336c5f43e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 071/108] fix: butterfly transforms wrote outside edge blocks,
 and applied factors from right in wrong order

---
 src/lapack/rbtgm.c | 24 +++++++++++++++---------
 src/lapack/rbtgu.c | 18 ++++++++++++------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..697c4e8 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -62,6 +62,9 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+        // last block may be smaller than half of the butterfly
+        if (nb > A->rows)
+            nb = A->rows;
         rb = A->rows - nb;
     }
 
@@ -191,11 +194,13 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+        // last block may be smaller than half of the butterfly
+        if (nb > A->cols)
+            nb = A->cols;
         rb = A->cols - nb;
     }
 
     if (flags & ARMAS_TRANS) {
-        j = 0;
         for (i = 0; i < A->rows; i++) {
             for (j = 0; j < rb; j++) {
                 r0 = armas_get_at_unsafe(R, j);
@@ -205,12 +210,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < nb; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < nb; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
@@ -260,7 +265,8 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
     Nd = (A->cols + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
     k = twod >> 1;
-    if (flags & ARMAS_TRANS) {
+    // leftmost factor is applied first; in R^T it is the biggest butterfly
+    if (!(flags & ARMAS_TRANS)) {
         pdir = ARMAS_PLEFT;
         rdir = ARMAS_PRIGHT;
         lb = Nd = Nd / k;
@@ -294,7 +300,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         }
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
-        if (flags & ARMAS_TRANS) {
+        if (!(flags & ARMAS_TRANS)) {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..65cdb1d 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -62,7 +62,7 @@ static
 void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                  armas_dense_t * S, int Nd, armas_conf_t * conf)
 {
-    int lb, nb, mb, i, j;
+    int lb, lr, lc, nb, mb, i, j;
     DTYPE r0, r1, s0, s1;
     DTYPE a00, a01, a10, a11;
 
@@ -76,6 +76,9 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
     lb = Nd / 2;
     mb = A->rows - lb;
     nb = A->cols - lb;
+    // block at the edge of matrix may be smaller than half of the butterfly
+    lr = A->rows < lb ? A->rows : lb;
+    lc = A->cols < lb ? A->cols : lb;
     for (j = 0; j < nb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         s1 = armas_get_at_unsafe(S, j + lb);
@@ -96,7 +99,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < lr; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +108,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < lc; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +119,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < lr; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
@@ -132,7 +135,7 @@ int armas_update2_rbt_descend(
 {
     armas_dense_t A00, A01, A10, A11;
     armas_dense_t UL, UR, U0, U1, VL, VR, V0, V1;
-    int lb;
+    int lb, lr, lc;
 
     EMPTY(VL);
     EMPTY(VR);
@@ -154,7 +157,10 @@ int armas_update2_rbt_descend(
     mat_partition_2x1(&U0, &U1, /**/ &UL, lb, ARMAS_PTOP);
     mat_partition_2x1(&V0, &V1, /**/ &VL, lb, ARMAS_PTOP);
 
-    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lb, lb, ARMAS_PTOPLEFT);
+    // block at the edge of matrix may be smaller than half of the butterfly
+    lr = A->rows < lb ? A->rows : lb;
+    lc = A->cols < lb ? A->cols : lb;
+    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lr, lc, ARMAS_PTOPLEFT);
 
     // compute subblocks;
     armas_update2_rbt_descend(&A00, &U0, &V0, Nd / 2, conf);
-- 
2.43.0


From 214efea166401363e3f8c72fabcea0a312c59149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 072/108] fix: secular equation: sign of updated vector was
 lost, size one and null deltas failed

---
 src/lapack/trdsec.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 8d9cd9c..00c9979 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -331,6 +331,15 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     N = armas_size(D);
     tau = ZERO;
 
+    if (N == 1) {
+        // 1/rho + z^2/(d - x) = 0
+        tau = armas_get_at_unsafe(Z, 0);
+        tau *= rho * tau;
+        *lambda = armas_get_at_unsafe(D, 0) + tau;
+        armas_set_at_unsafe(delta, 0, -tau);
+        return 0;
+    }
+
     // compute initial value at (D[k] + D[k+1])/2
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
     iK = trdsec_initial_guess(&tau, &tau_low,
@@ -467,7 +476,7 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  *      On exit, the updated rank-1 vector
  * \param[in] Q
  *      Precomputed deltas
- * \param[in] d
+ * \param[in] d, z0
  *      Original parameters of secular function
  * \param[in] rho
  *      Coefficient
@@ -476,7 +485,8 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  */
 static inline
 void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
-                             armas_dense_t * d, DTYPE rho)
+                             armas_dense_t * d, armas_dense_t * z0,
+                             DTYPE rho)
 {
     armas_dense_t delta;
     DTYPE zk;
@@ -486,6 +496,9 @@ void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
     for (i = 0; i < armas_size(z); i++) {
         armas_column(&delta, Q, i);
         update_vec_delta(&zk, d, &delta, i, rho);
+        // elements have the signs of the original vector
+        if (armas_get_at_unsafe(z0, i) < ZERO)
+            zk = -zk;
         armas_set_at_unsafe(z, i, zk);
     }
 }
@@ -702,7 +715,7 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         armas_set_at_unsafe(y, i, dlam);
     }
     if (err == 0) {
-        trdsec_update_vec_delta(v, Qd, d, rho);
+        trdsec_update_vec_delta(v, Qd, d, z, rho);
     } else {
         conf->error = ARMAS_ECONVERGE;
     }
@@ -734,6 +747,9 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd)
+        Qd = Q;
+
     if (Q->rows != Q->cols || Qd->rows != Qd->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
@@ -743,7 +759,7 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
         return -1;
     }
 
-    if (!Qd || Q == Qd) {
+    if (Q == Qd) {
         trdsec_eigenbuild_inplace(Q, v, conf);
     } else {
         trdsec_eigen2_build(Q, v, Qd, conf);
-- 
2.43.0


From d22139ff635affc9544add25d4257b04fd399787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 073/108] fix: last root of secular equation used tau as
 distance to its lower pole

---
 src/lapack/trdsec.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 00c9979..16395ec 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -355,11 +355,7 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     } else {
         iK1 = index;
         delta_k1 = armas_get_at_unsafe(delta, iK1);
-        if (index < N - 1) {
-            delta_k = armas_get_at_unsafe(delta, iK);
-        } else {
-            delta_k = tau;
-        }
+        delta_k = armas_get_at_unsafe(delta, iK);
     }
     eta = ONE;
     eta0 = ONE;
-- 
2.43.0


From 4aea4f959662543cd45a14a490fbcf4f94d8c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 074/108] fix: a negative size in ARMAS_CACHE became a huge
 size instead of the default

---
 src/base/env.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/env.c b/src/base/env.c
index 86ff376..78063fe 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -121,6 +121,9 @@ void armas_read_environment()
         for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
             endptr = (char *)0;
             val = strtoul(tok, &endptr, 0);
+            // a negative size is not valid (strtoul() makes it very large)
+            if (strchr(tok, '-'))
+                val = 0;
             if (endptr) {
                 switch (toupper(*endptr)) {
                 case 'K':
-- 
2.43.0


From fa523d5d2f4eb6f6fbfb818342d076c82453cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 075/108] fix: armas_ext_sum with alpha other than one drops
 the sum itself

Only the rounding error terms were stored in the result.
---
 src/eblas/asum_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index 8876a82..efa780d 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -155,7 +155,7 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
 
     if (alpha != ONE) {
         twoprod(result, &q, alpha, h);
-        *result = q + alpha*l;
+        *result += q + alpha*l;
     } else {
         *result = h + l;
     }
-- 
2.43.0


From 50493288fcc0154c8db6faad092073f05853f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 076/108] fix: extended precision inner product loses precision
 with small initial value

fastsum() is exact only if the first operand is larger in absolute value.
The unit diagonal term of armas_ext_mult_trm is such an initial value.
---
 src/eblas/dot_ext.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ca430b7..eb248dd 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -99,7 +99,8 @@ void armas_ext_adot_unsafe(
     }
 
     twoprod(&h0, &p0, s0, alpha);
-    fastsum(&s0, &z0, *h, h0);
+    // initial value may be smaller than the product
+    twosum(&s0, &z0, *h, h0);
     c0 = *l + p0 + alpha*c0 + z0;
     // protect against  h < l
     fastsum(h, l, s0, c0);
-- 
2.43.0


From 261c5e9104da326c8a7a4f8675d201bd13c84298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 077/108] fix: extended precision symmetric matrix-vector
 product drops error terms

The accumulated error was rounded into the sum before scaling and the
error of the final addition was dropped.
---
 src/eblas/symv_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index a8eac3d..26434ac 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -79,12 +79,14 @@ int armas_ext_mvmult_sym_unsafe(
                 twosum(&y0, &c0, y0, x0);
                 s0 += c0 + p0;
             }
-            twoprod(&y0, &p0, y0+s0, alpha);
+            twoprod(&y0, &p0, y0, alpha);
+            p0 += alpha*s0;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
             twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
+            p0 += s0;
 
             Y->elems[(i+0)*yinc] = y0 + p0;
         }
@@ -108,12 +110,14 @@ int armas_ext_mvmult_sym_unsafe(
             twosum(&y0, &c0, y0, x0);
             s0 += c0 + p0;
         }
-        twoprod(&y0, &p0, y0+s0, alpha);
+        twoprod(&y0, &p0, y0, alpha);
+        p0 += alpha*s0;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
         twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
+        p0 += s0;
 
         Y->elems[(i+0)*yinc] = y0 + p0;
     }
-- 
2.43.0


From dec7b27b938c20a6af835f824cc40962d1409840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 078/108] fix: extended precision symmetric rank-2 update drops
 an error term

The rounding error of the second scaled product was computed but not used.
---
 src/eblas/syr2_ext.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index 69a618c..518f8e9 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -53,7 +53,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c0 += c1 + alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
                 q0 += c0;
@@ -83,7 +83,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c0 += c1 + alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
                 q0 += c0;
-- 
2.43.0


From 72ea04a5f1c57cb0ba46ea489bd26cacced4911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 079/108] fix: armas_lufactor reports a singular block even
 when later blocks are regular

---
 src/lapack/lu.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index fa09bcd..35a181b 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -145,7 +145,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +236,9 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        // remember a singular block, later blocks do not hide it
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From 32475196acee56b81a9b748ead05eb3bf6d187b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 080/108] fix: Givens rotations stay inside the matrix when
 more rotations or columns are requested than fit

---
 src/lapack/givens.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..2fb04b8 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-start-1) for left and
+ *      min(nrot, A->cols-start-1) for right.
  *
  * @ingroup lapack
  */
@@ -229,9 +229,15 @@ int armas_gvupdate(armas_dense_t * A, int start,
                      armas_dense_t * C, armas_dense_t * S, int nrot,
                      int flags)
 {
-    int k, n, end = start + nrot;
+    int k, n, end;
     DTYPE c, s;
 
+    // rotation n updates rows/columns start+n and start+n+1
+    nrot = min(nrot, ((flags & ARMAS_LEFT) != 0 ? A->rows : A->cols) - start - 1);
+    if (nrot <= 0)
+        return 0;
+    end = start + nrot;
+
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
             end = min(A->rows, end);
@@ -270,7 +276,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return nrot;
 }
 
 
-- 
2.43.0


From a574cf381f6f262ed4b6dab34626909241146706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 081/108] fix: armas_qsort_vec ends for vectors with equal
 elements and does not read past the end

---
 src/lapack/qsort.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..0831f64 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,16 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        // elements equal to pivot would be exchanged forever
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +116,16 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        // elements equal to pivot would be exchanged forever
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 6aba2a684e215bef6053172d60257e75e400389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 082/108] fix: armas_abs_sort_vec keeps the signs of the
 elements it sorts

---
 src/lapack/sort.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..5a20e03 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -42,15 +42,15 @@
 void armas_abs_sort_vec(armas_dense_t * D, int updown)
 {
     int k, j;
-    DTYPE cval, tmpval;
+    DTYPE cval, tmpval;   // elements keep their signs
 
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From d59a279b8888d501646e4aff41c43b286342ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 083/108] fix: armas_qdroots returned wrong roots when the
 linear term is zero or the roots are complex

---
 src/lapack/qdroot.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..69b17b5 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -124,11 +124,12 @@ DTYPE discriminant(DTYPE a, DTYPE b, DTYPE c)
  *   2004"
  *
  * @param x1, x2 [out]
- *	Computed roots, |x1| >= |x2|
+ *	Computed roots, |x1| >= |x2|. If roots are complex then real and imaginary
+ *	part of them.
  * @param a, b, c [in]
  *	Coefficient of quadratic equation.
  * @return
- *	zero if roots are real and non-zero if roots are complex or coincident real.
+ *	zero if roots are real and non-zero if roots are complex.
  *
  * For details see
  *   W. Kahan, 2004
@@ -140,14 +141,14 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
     if (d < 0.0) {
         r = b / a;
         s = SQRT(ABS(d)) / a;
-        *x1 = -r / 2.0;
-        *x2 = s / 2.0;
+        *x1 = r;
+        *x2 = s;
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
-    *x2 = c / s;
+    *x2 = s == ZERO ? *x1 : c / s;
     return 0;
 }
 
-- 
2.43.0


From fdc0643ecec8903652ea2bb5a2fcf44adffc018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 084/108] fix: armas_houseapply had the conditions on reflector
 kind and sizes reversed

---
 src/lapack/house.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index ae8d51a..adba52f 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -483,8 +483,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from right and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -505,7 +505,9 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
+    int scaled = tau ? 1 : 0;
+    int lenw = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -530,21 +532,21 @@ int armas_houseapply(armas_dense_t * A,
         }
         return 0;
     }
-    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
     int ok = 0;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
+        flags |= ARMAS_LEFT;
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < lenw) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
@@ -566,8 +568,7 @@ int armas_houseapply(armas_dense_t * A,
         return armas_apply_householder2x1(tau, v, &a1, &A2, &w1, flags, cf);
     }
     // unscaled householder reflector here
-    int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
-    armas_make(&w1, n, 1, n, armas_data(w));
+    armas_make(&w1, lenw, 1, lenw, armas_data(w));
     // tau is null pointer here
     return armas_apply_householder1x1(tau, v, A, &w1, flags, cf);
 }
-- 
2.43.0


From 6a3b24e733247892124a8bc007fa804774f4dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 085/108] fix: option ARMAS_ONONNEG has an effect and the
 diagonal is non-negative also when there is nothing to eliminate

---
 src/lapack/house.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index adba52f..d017b57 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -101,12 +101,17 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
     int nscale = 0;
 
     normx = armas_nrm2(x, cf);
+    alpha = armas_get_unsafe(a11, 0, 0);
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // H = I, or H = I - 2*e_0*e_0^T to change sign of negative alpha
+        int neg = alpha < 0.0
+            && (flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG)) == ARMAS_NONNEG;
+        armas_set(tau, 0, 0, neg ? TWO : ZERO);
+        if (neg)
+            armas_set_unsafe(a11, 0, 0, -alpha);
         return 0;
     }
 
-    alpha = armas_get_unsafe(a11, 0, 0);
     sign = SIGN(alpha) ? -1.0 : 1.0;
 
     beta = HYPOT(alpha, normx);
@@ -161,7 +166,13 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
         t = -delta / beta;
         break;
     }
-    armas_scale(x, 1.0 / delta, cf);
+    if (t < SAFEMIN) {
+        // x negligible, 1/delta overflows
+        armas_scale(x, ZERO, cf);
+        t = ZERO;
+    } else {
+        armas_scale(x, 1.0 / delta, cf);
+    }
     armas_set_unsafe(tau, 0, 0, t);
 
     while (nscale-- > 0) {
@@ -293,7 +304,7 @@ int armas_house_vec(armas_dense_t * x, armas_dense_t * tau, int flags,
 void armas_compute_householder(armas_dense_t * a11, armas_dense_t * x,
                                  armas_dense_t * tau, armas_conf_t * cf)
 {
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
     internal_householder(a11, x, tau, flags, cf);
 }
 
@@ -308,7 +319,7 @@ void armas_compute_householder_vec(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     armas_submatrix(&alpha, x, 0, 0, 1, 1);
     if (x->rows == 1) {
@@ -331,7 +342,7 @@ void armas_compute_householder_rev(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     if (x->rows == 1) {
         armas_submatrix(&alpha, x, 0, -1, 1, 1);
-- 
2.43.0


From 8b821a23fd158ce5a85b6baae3cada185954d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 086/108] fix: rank updates and extended precision products
 scale the target when the inner dimension is empty

---
 src/blas/syr2k.c     | 7 ++++++-
 src/blas/syrk.c      | 2 +-
 src/blas/updtrmm.c   | 8 +++++++-
 src/eblas/gemm_ext.c | 8 +++++++-
 src/eblas/gemv_ext.c | 6 +++++-
 5 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index f26807e..ec1be1a 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -252,8 +252,13 @@ int armas_update2_sym(
     int flags,
     armas_conf_t *conf)
 {
-    if (armas_size(C) == 0 || armas_size(A) == 0 || armas_size(B) == 0)
+    if (armas_size(C) == 0 || armas_size(A) == 0 || armas_size(B) == 0) {
+        // empty product; C = beta * C
+        int n = (flags & ARMAS_TRANS) ? A->cols : A->rows;
+        if (armas_size(C) > 0 && C->rows == n && C->cols == n)
+            return armas_mscale(C, beta, flags & (ARMAS_UPPER | ARMAS_LOWER), conf);
         return 0;
+    }
 
     if (!conf)
         conf = armas_conf_default();
diff --git a/src/blas/syrk.c b/src/blas/syrk.c
index a8c3bf9..e2d3f07 100644
--- a/src/blas/syrk.c
+++ b/src/blas/syrk.c
@@ -59,7 +59,7 @@ int armas_update_sym(
 {
     int ok;
 
-    if (armas_size(A) == 0 || armas_size(C) == 0)
+    if (armas_size(C) == 0)
         return 0;
 
     if (!conf)
diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 8721fd4..6d92a2f 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -467,8 +467,14 @@ int armas_update_trm(
 {
     int ok;
 
-    if (armas_size(C) == 0 || armas_size(A) == 0 || armas_size(B) == 0)
+    if (armas_size(C) == 0 || armas_size(A) == 0 || armas_size(B) == 0) {
+        // empty product; C = beta * C
+        int m = (flags & ARMAS_TRANSA) ? A->cols : A->rows;
+        int n = (flags & ARMAS_TRANSB) ? B->rows : B->cols;
+        if (armas_size(C) > 0 && C->rows == m && C->cols == n)
+            return armas_mscale(C, beta, flags & (ARMAS_UPPER | ARMAS_LOWER), conf);
         return 0;
+    }
 
     if (!conf)
         conf = armas_conf_default();
diff --git a/src/eblas/gemm_ext.c b/src/eblas/gemm_ext.c
index ddd10d9..c278e50 100644
--- a/src/eblas/gemm_ext.c
+++ b/src/eblas/gemm_ext.c
@@ -63,8 +63,14 @@ int armas_ext_mult(
 {
     int ok;
 
-    if (armas_size(A) == 0 || armas_size(B) == 0 || armas_size(C) == 0)
+    if (armas_size(A) == 0 || armas_size(B) == 0 || armas_size(C) == 0) {
+        // empty product; C = beta * C
+        int m = (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) ? A->cols : A->rows;
+        int n = (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) ? B->rows : B->cols;
+        if (armas_size(C) > 0 && C->rows == m && C->cols == n)
+            return armas_mscale(C, beta, 0, conf);
         return  0;
+    }
 
     if (!conf)
         conf = armas_conf_default();
diff --git a/src/eblas/gemv_ext.c b/src/eblas/gemv_ext.c
index 114fba0..9d421ea 100644
--- a/src/eblas/gemv_ext.c
+++ b/src/eblas/gemv_ext.c
@@ -135,8 +135,12 @@ int armas_ext_mvmult(
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(A) == 0 || armas_size(x) == 0 || armas_size(y) == 0)
+    if (armas_size(A) == 0 || armas_size(x) == 0 || armas_size(y) == 0) {
+        // empty product; Y = beta * Y
+        if (ny > 0 && ny == (flags & ARMAS_TRANS ? A->cols : A->rows))
+            return armas_scale(y, beta, conf);
         return 0;
+    }
 
     if (!(armas_isvector(x) && armas_isvector(y))) {
         conf->error = ARMAS_ENEED_VECTOR;
-- 
2.43.0


From eca9c7f0db07b24d565b83c6467c9f3a6c2120bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 087/108] fix: compat gemm: stored sizes of transposed operands
 and row major order

---
 src/compat/gemm.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..c204874 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,19 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
 
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) != 'N') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
@@ -56,7 +62,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -64,7 +70,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
@@ -73,22 +79,25 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
+        // stored elements are the transposed matrices in column major order;
+        // compute C^T = op(B)^T*op(A)^T
+        if (transa != CblasNoTrans) {
+            flags |= ARMAS_TRANSB;
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         } else {
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
+        if (transb != CblasNoTrans) {
+            flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From ec3641a9a5b7253117067f192743ab6c28a4179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 088/108] fix: cblas_dsymm: size of the symmetric matrix in
 column major order

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From a1d36af99935d7985d46bcd07ad469f865a120d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 089/108] fix: cblas_dtrmm and cblas_dtrsm: transpose and size
 of the triangular matrix in row major order

---
 src/compat/trmm.c | 8 ++++----
 src/compat/trsm.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..b5f551d 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..1c8f438 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From 7d6b8cb674a38f02d5c6684bf908dedafaf1482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 090/108] fix: compat level 2: vectors with negative increment
 accessed memory outside of the vector

---
 src/compat/gemv.c    | 28 ++++------------------------
 src/compat/ger.c     | 28 ++++------------------------
 src/compat/symv.c    | 26 ++++----------------------
 src/compat/syr.c     | 12 ++----------
 src/compat/syr2.c    | 24 ++++--------------------
 src/compat/trmv.c    | 12 ++----------
 src/compat/trsv.c    | 12 ++----------
 src/include/compat.h | 13 +++++++++++++
 8 files changed, 35 insertions(+), 120 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..4e1df73 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -38,18 +38,8 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     ylen = flags & ARMAS_TRANS ? *n : *m;
     xlen = flags & ARMAS_TRANS ? *m : *n;
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, *incx, X);
-    }
+    compat_vector(&y, ylen, Y, *incy);
+    compat_vector(&x, xlen, X, *incx);
     armas_mvmult(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -82,18 +72,8 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     }
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, incx, X);
-    }
+    compat_vector(&y, ylen, Y, incy);
+    compat_vector(&x, xlen, X, incx);
     armas_mvmult(beta, &y, alpha, &Aa, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..caa7d4c 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -31,18 +31,8 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
     armas_dense_t y, a, x;
 
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *m, 1, *m, X);
-    } else {
-        armas_make(&x, 1, *m, *incx, X);
-    }
+    compat_vector(&y, *n, Y, *incy);
+    compat_vector(&x, *m, X, *incx);
     armas_mvupdate(ONE, &a, *alpha, &x, &y, conf);
 }
 #endif
@@ -55,18 +45,8 @@ void cblas_ger(const enum CBLAS_ORDER order, const int M,
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t y, a, x;
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, N, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, M, 1, M, X);
-    } else {
-        armas_make(&x, 1, M, incx, X);
-    }
+    compat_vector(&y, N, Y, incy);
+    compat_vector(&x, M, X, incx);
 
     if (order == CblasRowMajor) {
         armas_make(&a, N, M, lda, A);
diff --git a/src/compat/symv.c b/src/compat/symv.c
index c5e1649..ae1a080 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -43,18 +43,8 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
     }
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&y, *n, Y, *incy);
+    compat_vector(&x, *n, X, *incx);
     armas_mvmult_sym(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -78,16 +68,8 @@ void cblas_symv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vector(&x, N, X, incx);
+    compat_vector(&y, N, Y, incy);
     armas_mvmult_sym(beta, &y, alpha, &Aa, &x, flags, &conf);
 }
 #endif
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 0d9dd7f..87f4eee 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -34,11 +34,7 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvupdate_sym(ONE, &a, *alpha, &x, flags, conf);
 }
 #endif
@@ -59,11 +55,7 @@ void cblas_syr(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     }
 
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_mvupdate_sym(ONE, &Aa, alpha, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..eb5f02f 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -34,16 +34,8 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
-    if (*incy == 1) {
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        armas_make(&y, 1, *n, *incy, Y);
-    }
+    compat_vector(&x, *n, X, *incx);
+    compat_vector(&y, *n, Y, *incy);
     armas_mvupdate2_sym(ONE, &a, *alpha, &x, &y, flags, conf);
 }
 #endif
@@ -67,16 +59,8 @@ void cblas_syr2(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vector(&x, N, X, incx);
+    compat_vector(&y, N, Y, incy);
     armas_mvupdate2_sym(ONE, &Aa, alpha, &x, &y, flags, conf);
 }
 #endif
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..8e3994e 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -46,11 +46,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvmult_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvmult_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..80ed0a1 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -46,11 +46,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvsolve_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvsolve_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/include/compat.h b/src/include/compat.h
index 1e08c94..e576c18 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -9,6 +9,7 @@
 #define __ARMAS_COMPAT_H 1
 
 #include <math.h>
+#include <stddef.h>
 #include <complex.h>
 
 #include "dtype.h"
@@ -70,5 +71,17 @@ enum CBLAS_SIDE		{CblasLeft=141, CblasRight=142};
 
 #endif  /* FLOAT64 */
 
+// Make V vector of N elements with increment INC. As the standard defines, elements
+// of a vector with negative increment are stored in reverse order.
+#define compat_vector(V, N, X, INC) \
+    do { \
+        if ((INC) == 1) \
+            armas_make((V), (N), 1, (N), (X)); \
+        else if ((INC) < 0) \
+            armas_make((V), 1, (N), (INC), (X) + ((ptrdiff_t)1 - (N)) * (INC)); \
+        else \
+            armas_make((V), 1, (N), (INC), (X)); \
+    } while (0)
+
 #endif  /* CONFIG_COMPAT */
 #endif  /* ARMAS_COMPAT_H */
-- 
2.43.0


From e5225863cc01dea97d2af7aca2ef59c1b09b8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 091/108] fix: compat level 1: non-positive increments, idamax_
 returns index that starts from one

---
 src/compat/asum.c  |  4 ++++
 src/compat/iamax.c |  7 ++++++-
 src/compat/nrm2.c  | 16 ++++++----------
 src/compat/scal.c  |  4 ++++
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/compat/asum.c b/src/compat/asum.c
index e606841..ef3e974 100644
--- a/src/compat/asum.c
+++ b/src/compat/asum.c
@@ -29,6 +29,8 @@ DTYPE blas_asumf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ DTYPE cblas_asum(const int N, DTYPE * X, const int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N < 1 || incx < 1)
+        return ZERO;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..46de857 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -29,12 +29,15 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return 0;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // index of first element is one
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
@@ -44,6 +47,8 @@ int cblas_iamax(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N < 1 || incx < 1)
+        return 0;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/nrm2.c b/src/compat/nrm2.c
index cb1ac42..5a117ca 100644
--- a/src/compat/nrm2.c
+++ b/src/compat/nrm2.c
@@ -29,11 +29,9 @@ DTYPE blas_nrm2f(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    if (*n < 1)
+        return ZERO;
+    compat_vector(&x, *n, X, *incx);
     return armas_nrm2(&x, conf);
 }
 #endif
@@ -44,11 +42,9 @@ DTYPE cblas_nrm2(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    if (N < 1)
+        return ZERO;
+    compat_vector(&x, N, X, incx);
     return armas_nrm2(&x, conf);
 }
 #endif
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..153e7ae 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -29,6 +29,8 @@ void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -45,6 +47,8 @@ void cblas_scal(const int N, const DTYPE alpha, DTYPE * X, const int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return;
     if (*incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
-- 
2.43.0


From 756556daedf874b86029491366511b36686fc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 092/108] fix: dscal_: order of arguments

---
 src/compat/scal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat/scal.c b/src/compat/scal.c
index 153e7ae..a630c41 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,7 +24,7 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
-- 
2.43.0


From edbfd572dcf3428ff782addbbd958ff8830f2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 093/108] fix: drotg_ returns also r and z

---
 src/compat/rot.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..d86c3a2 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -72,8 +72,25 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 #if defined(blas_rotgf)
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
-    DTYPE r;
+    DTYPE r, z;
+    int a_is_larger = ABS(*sa) > ABS(*sb);
+
     armas_gvcompute(c, s, &r, *sa, *sb);
+    // sign of r is sign of the larger one
+    if ((a_is_larger ? *c : *s) < ZERO) {
+        *c = -(*c);
+        *s = -(*s);
+        r = -r;
+    }
+    // z tells the rotation
+    if (r == ZERO)
+        z = ZERO;
+    else if (a_is_larger)
+        z = *s;
+    else
+        z = *c != ZERO ? ONE / *c : ONE;
+    *sa = r;
+    *sb = z;
 }
 #endif
 
-- 
2.43.0


From f5fb6bc248b1142c119ffe3db550c8cef88031fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 094/108] fix: compat syr2k: leading dimension of the second
 matrix, row major order

---
 src/compat/syr2k.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..a6cb26d 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
@@ -64,8 +64,10 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         if (trans == CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
+            armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Aa, N, K, lda, A);
+            armas_make(&Ba, N, K, ldb, B);
         }
         break;
     case CblasColMajor:
@@ -82,7 +84,7 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Ca, N, N, ldc, C);
-    armas_update2_sym(beta, &Ca, alpha, &Aa, &Ba, flags, conf);
+    armas_update2_sym(beta, &Ca, alpha, &Aa, &Ba, flags, &conf);
 }
 #endif
 
-- 
2.43.0


From c45b4291be7e5604ee7b11842b619e3b768af0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 095/108] fix: compat: conjugate transpose of a real matrix is
 its transpose

---
 src/compat/gemv.c  | 4 ++--
 src/compat/syr2k.c | 4 ++--
 src/compat/syrk.c  | 4 ++--
 src/compat/trmm.c  | 2 +-
 src/compat/trmv.c  | 4 ++--
 src/compat/trsm.c  | 2 +-
 src/compat/trsv.c  | 4 ++--
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 4e1df73..409d28a 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
@@ -64,7 +64,7 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     case CblasColMajor:
     default:
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         ylen = flags & ARMAS_TRANS ? N : M;
         xlen = flags & ARMAS_TRANS ? M : N;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index a6cb26d..89026b1 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -73,7 +73,7 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
             armas_make(&Ba, K, N, ldb, B);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..89875ec 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -68,7 +68,7 @@ void cblas_syrk(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
         } else {
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index b5f551d..50861cf 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 8e3994e..31a947b 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -71,7 +71,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 1c8f438..4d578b0 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 80ed0a1..bfd9370 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -71,7 +71,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-- 
2.43.0


From b2cc0872e9b5b7945fe1c711eaca6a32d9922d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 096/108] fix: compat: dgemv_, dger_, dtrmv_, dsyr2_, dtrsm_
 and dsyr2k_ were not in the library

---
 src/compat/gemv.c                  | 4 ++--
 src/compat/ger.c                   | 2 +-
 src/compat/syr2.c                  | 2 +-
 src/compat/trmv.c                  | 2 +-
 src/compat/trsm.c                  | 4 ++--
 src/include/float64/names_compat.h | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 409d28a..9b51881 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index caa7d4c..f8a1fbd 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index eb5f02f..c1b7232 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 31a947b..09d3809 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 4d578b0..80fd329 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From 9756833111736d2e9359cf29998843385670106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 097/108] fix: armas_printf ignored the stream, armas_print had
 an incomplete format

---
 src/base/matrix.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index f4f2e95..d7c4506 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -177,20 +177,20 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
     int rowpartial = m->rows > 18;
     int colpartial = m->cols > 9;
     for (i = 0; i < m->rows; i++ ) {
-        printf("[");
+        fprintf(out, "[");
         for (j = 0; j < m->cols; j++ ) {
             if (j > 0) {
-                printf(", ");
+                fprintf(out, ", ");
             }
-            printf(efmt, m->elems[j*m->step+i]);
+            fprintf(out, efmt, m->elems[j*m->step+i]);
             if (colpartial && j == 3) {
                 j = m->cols - 5;
-                printf(", ...");
+                fprintf(out, ", ...");
             }
         }
-        printf("]\n");
+        fprintf(out, "]\n");
         if (rowpartial && i == 8) {
-            printf(" ....\n");
+            fprintf(out, " ....\n");
             i = m->rows - 10;
         }
     }
@@ -198,6 +198,6 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
 
 void armas_print(const armas_dense_t *m, FILE *out)
 {
-    armas_printf(out, "%8.1", m);
+    armas_printf(out, "%8.1e", m);
 }
 
-- 
2.43.0


From b46f28bdd987cfba9a54defa59d01a69851b95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 098/108] fix: armas_hhouse: endless loop when reflector does
 not exist, sign for zero vector, debug output

---
 src/lapack/hhouse.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..e322507 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -109,14 +109,27 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
         return -ARMAS_EINVAL;
     }
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // H is unit matrix or it changes the sign of the first element
+        t = 0.0;
+        if ((flags & ARMAS_NONNEG) != 0 &&
+            ((flags & ARMAS_HHNEGATIVE) != 0 ? alpha > 0.0 : alpha < 0.0))
+            t = 2.0;
+        beta = t != 0.0 ? -alpha : alpha;
+        if ((flags & ARMAS_HHNEGATIVE) != 0)
+            beta = -beta;
+        armas_set(a11, 0, 0, beta);
+        armas_set(tau, 0, 0, t);
         return 0;
     }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
+    if (beta == 0.0) {
+        // alpha^2 - normx^2 == 0; reflector does not exist
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
-        printf("beta : %e\n", beta);
         // normx, beta may be inaccurate, scale and recompute
         rsafmin = 1.0 / safmin;
         do {
-- 
2.43.0


From e8bbe1fa14428761e2d8c61d98a24ff78d649643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 099/108] fix: qrbuild, qlbuild, lqbuild, rqbuild, bdbuild:
 sizes of A, K and tau were not checked

---
 src/lapack/bibld.c | 18 ++++++++++++++++--
 src/lapack/lqbld.c |  5 +++++
 src/lapack/qlbld.c |  6 ++++++
 src/lapack/qrbld.c |  5 +++++
 src/lapack/rqbld.c |  3 ++-
 5 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index aa4fe6f..a1023d3 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -94,7 +94,7 @@ int armas_bdbuild_w(armas_dense_t * A,
 {
     armas_dense_t Qh, Ph, tauh, d, s;
     armas_env_t *env;
-    int j, err = 0;
+    int j, nk, left, err = 0;
 
     if (!conf)
         conf = armas_conf_default();
@@ -123,7 +123,21 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
-    if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
+    if (!tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // number of reflectors of the off-diagonal side is one less
+    left = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    nk = left ? A->cols : A->rows;
+    if ((flags & (ARMAS_WANTQ | ARMAS_WANTP)) == (left ? ARMAS_WANTP : ARMAS_WANTQ))
+        nk--;
+    if (!armas_isvector(tau) || armas_size(tau) < nk) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
+    if (left) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
             armas_submatrix(&tauh, tau, 0, 0, A->cols, 1);
diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index 2c90068..f921390 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -282,6 +282,11 @@ int armas_lqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
+    if (A->cols < A->rows || K < 0 || K > A->rows ||
+        !armas_isvector(tau) || armas_size(tau) != A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     lb = env->lb;
     wsmin = A->rows * sizeof(DTYPE);
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..5db56df 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -277,6 +277,12 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
+    if (A->rows < A->cols || K < 0 || K > A->cols ||
+        !armas_isvector(tau) || armas_size(tau) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..66e13b6 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -300,6 +300,11 @@ int armas_qrbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
+    if (A->rows < A->cols || K < 0 || K > A->cols ||
+        !armas_isvector(tau) || armas_size(tau) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3b83b90..4ede011 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -265,7 +265,8 @@ int armas_rqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (armas_size(tau) != A->rows) {
+    if (A->cols < A->rows || K < 0 || K > A->rows ||
+        !armas_isvector(tau) || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 6a1a0f456c769e46482db4fb8505a88cc9bd9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 100/108] fix: bdreduce, bdmult, trdreduce, hessmult: size of
 the scalar coefficients was not checked

---
 src/lapack/bired.c  | 12 ++++++++++++
 src/lapack/biredm.c | 18 ++++++++++++++++--
 src/lapack/hessm.c  |  4 ++++
 src/lapack/trired.c |  2 +-
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 83bfbed..c864e75 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,6 +945,18 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
+    if (!tauq || !taup) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // reflectors of the off-diagonal side may be one less
+    if (!armas_isvector(tauq) || !armas_isvector(taup) ||
+        armas_size(tauq) < (A->rows < A->cols ? A->rows - 1 : A->cols) ||
+        armas_size(taup) < (A->rows < A->cols ? A->rows : A->cols - 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = (A->cols + A->rows) * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 9726df1..45086de 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -128,7 +128,7 @@ int armas_bdmult_w(armas_dense_t * C,
                      int flags, armas_wbuf_t * wb, armas_conf_t * conf)
 {
     armas_dense_t Qh, Ch, Ph, tauh;
-    int err;
+    int err, nk, left;
 
     if (!conf)
         conf = armas_conf_default();
@@ -163,7 +163,21 @@ int armas_bdmult_w(armas_dense_t * C,
         flags = (flags & ARMAS_TRANS) ? flags ^ ARMAS_TRANS : flags | ARMAS_TRANS;
     }
 
-    if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
+    if (!A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // number of reflectors of the off-diagonal side is one less
+    left = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    nk = left ? A->cols : A->rows;
+    if ((flags & (ARMAS_MULTQ | ARMAS_MULTP)) == (left ? ARMAS_MULTP : ARMAS_MULTQ))
+        nk--;
+    if (!armas_isvector(tau) || armas_size(tau) < nk) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
+    if (left) {
         // M >= N
         switch (flags & (ARMAS_MULTQ | ARMAS_MULTP)) {
         case ARMAS_MULTQ:
diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 57b936f..770f6f1 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -130,6 +130,10 @@ int armas_hessmult_w(armas_dense_t * C,
     if (wb && wb->bytes == 0) {
         return armas_qrmult_w(&Ch, __nil, __nil, flags, wb, conf);
     }
+    if (A->rows != A->cols || armas_size(tau) < A->rows - 1) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     return armas_qrmult_w(&Ch, &Qh, &tauh, flags, wb, conf);
 }
 #else
diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..2fbd0f2 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 642312315d282b09f83def8e9a209e5a76281842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 101/108] fix: lufactor, lusolve, ldlfactor, ldlinverse,
 pivot_sort, pivot_rows: pivot length was not checked

---
 src/base/pivot.c    | 8 +++++---
 src/lapack/invldl.c | 3 ++-
 src/lapack/ldlpv.c  | 4 ++++
 src/lapack/lu.c     | 8 +++++++-
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index 342c7e7..10d89e5 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -231,10 +231,12 @@ void apply_col_pivots(armas_dense_t * A, armas_pivot_t * P,
 int armas_pivot_rows(armas_dense_t * A, armas_pivot_t * P, int flags,
                        armas_conf_t * conf)
 {
-    if (A->rows < P->npivots)
-        return -1;
     if (!conf)
         conf = armas_conf_default();
+    if (A->rows < P->npivots) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     apply_row_pivots(A, P, flags, conf);
     return 0;
@@ -401,7 +403,7 @@ int armas_pivot_sort(armas_dense_t * D, armas_pivot_t * P, int direction)
     int k, j, pk, pj;
     DTYPE cval, tmpval;
 
-    if (!armas_isvector(D)) {
+    if (!armas_isvector(D) || armas_pivot_size(P) < armas_size(D)) {
         return -1;
     }
     // initialize the array
diff --git a/src/lapack/invldl.c b/src/lapack/invldl.c
index 9134c41..0da5acd 100644
--- a/src/lapack/invldl.c
+++ b/src/lapack/invldl.c
@@ -324,7 +324,8 @@ int armas_ldlinverse_w(armas_dense_t * A, const armas_pivot_t * P,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols ||
+        (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index 7ec5c31..220928a 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -572,6 +572,10 @@ int armas_ldlfactor_w(armas_dense_t * A,
         armas_make(&W, wsz, 1, wsz, (DTYPE *) armas_wptr(wb));
         return ldlfactor_np(A, &W, flags, conf);
     }
+    if (armas_pivot_size(P) < A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     lb = env->lb;
     wsz = armas_wbytes(wb) / sizeof(DTYPE);
diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 35a181b..5582c69 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -297,6 +297,11 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
     if (!cf)
         cf = armas_conf_default();
 
+    if (P && armas_pivot_size(P) < IMIN(A->rows, A->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
         if (P) {
@@ -348,7 +353,8 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    ok = B->rows == A->cols && A->rows == A->cols;
+    ok = B->rows == A->cols && A->rows == A->cols
+        && (!P || armas_pivot_size(P) == A->rows);
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From 7b4360ec3332d0f3d3b19a7cdb4ea88fd1be6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 102/108] fix: qrsolve, lqsolve, qrtfactor, cholupdate: operand
 sizes were not checked

---
 src/lapack/cholupd.c | 5 +++++
 src/lapack/lqsolve.c | 2 +-
 src/lapack/qrsolve.c | 2 +-
 src/lapack/qrt.c     | 6 +++++-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lapack/cholupd.c b/src/lapack/cholupd.c
index 6ee7fa7..a1f8b4a 100644
--- a/src/lapack/cholupd.c
+++ b/src/lapack/cholupd.c
@@ -161,6 +161,11 @@ int armas_cholupdate(armas_dense_t * A, armas_dense_t * X, int flags,
     if (armas_size(A) == 0 || armas_size(X) == 0)
         return 0;
 
+    if (A->rows != A->cols || !armas_isvector(X) || armas_size(X) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     // private functions expect row vector
     if (X->cols == 1) {
         armas_col_as_row(&Xrow, X);
diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index 8fca073..c5c463e 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -131,7 +131,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->cols) {
+    if (B->rows != A->cols || A->cols < A->rows || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..0e0dc35 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -120,7 +120,7 @@ int armas_qrsolve_w(armas_dense_t * B,
         return armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->rows) {
+    if (B->rows != A->rows || A->rows < A->cols || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index dedf198..68552b1 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -249,8 +249,12 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
             wb->bytes = A->cols * sizeof(DTYPE);
         return 0;
     }
+    if (!T) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // must have: M >= N
-    if (A->rows < A->cols || T->cols < A->cols) {
+    if ((lb == 0 && A->cols > 0) || A->rows < A->cols || T->cols < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From be499fa7a30b0538fca81de5f57ca7fd68866d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 103/108] fix: trdbisect, trdsec_solve_vec, eigen_sym_selected,
 sort_eigenvec: operand sizes were not checked

---
 src/lapack/evd.c    | 2 +-
 src/lapack/sort.c   | 4 ++++
 src/lapack/trdbis.c | 6 ++++++
 src/lapack/trdsec.c | 5 ++++-
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 31c3335..1510f32 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -313,7 +313,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 5a20e03..5086c6b 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -213,6 +213,10 @@ int armas_sort_eigenvec(armas_dense_t * D, armas_dense_t * U,
         armas_sort_vec(D, updown);
         return 0;
     }
+    if ((U && U->cols < N) || (V && V->rows < N) ||
+        (C && (armas_isvector(C) ? armas_size(C) : C->cols) < N)) {
+        return -ARMAS_ESIZE;
+    }
     // This is simple insertion sort - find index to largest/smallest value
     // in remaining subvector and swap that with value in current index.
     for (k = 0; k < N - 1; k++) {
diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 3b14ca5..058f919 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -237,6 +237,12 @@ int armas_trdbisect(armas_dense_t * Y,
     if (armas_size(D) == 0)
         return 0;
 
+    if (!armas_isvector(D) || armas_size(E) != armas_size(D) - 1 ||
+        !armas_isvector(Y) || armas_size(Y) < armas_size(D)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     compute_gerschgorin(&gleft, &gright, D, E);
     bnorm = MAX(ABS(gleft), ABS(gright));
     tau = params ? params->tau : 0.0;
diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 16395ec..2c7e75a 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -698,7 +698,10 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         conf = armas_conf_default();
 
     if (armas_size(v) != armas_size(z)
-        || armas_size(v) != armas_size(d)) {
+        || armas_size(v) != armas_size(d)
+        || armas_size(y) < armas_size(d)
+        || Qd->rows != armas_size(d)
+        || Qd->cols != armas_size(d)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 4f8bfa29f6fcc087a69eb9608dfc061c0ee4baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 104/108] fix: house_vec, mult_rbt: crash with an empty operand

---
 src/lapack/house.c | 5 +++++
 src/lapack/rbtgm.c | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index d017b57..5c1c8c5 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -291,6 +291,11 @@ int armas_house_vec(armas_dense_t * x, armas_dense_t * tau, int flags,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!armas_isvector(x) || armas_size(x) == 0) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     armas_submatrix(&alpha, x, 0, 0, 1, 1);
     if (x->rows == 1) {
         armas_submatrix(&x2, x, 0, 1, 1, armas_size(x) - 1);
diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 697c4e8..8d0067f 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -378,6 +378,8 @@ int armas_mult_rbt(armas_dense_t * A, armas_dense_t * R, int flags,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (armas_size(A) == 0 || armas_size(R) == 0)
+        return 0;
     if (flags & ARMAS_RIGHT) {
         rbt_recursive_right(A, R, flags, conf);
     } else {
-- 
2.43.0


From 1eca3e0e92963e697b41fca5ca1f108ec1a1dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 105/108] fix: mvupdate2_sym: size of the matrix was not
 checked against the vectors

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..e1bff31 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || A->cols != nx || ny != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 3a54bdee8bb1b9f10b3cd0277992c9e8d7a99d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 106/108] fix: update2_rbt: crash with empty butterfly matrices

---
 src/lapack/rbtgu.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 65cdb1d..380b6c6 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -214,6 +214,8 @@ int armas_update2_rbt(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (armas_size(A) == 0 || armas_size(U) == 0)
+        return 0;
 
     armas_update2_rbt_descend(A, U, V, Nd, conf);
     return 0;
-- 
2.43.0


From 52a93b0dc049c1e2dc3651db5308f6245568dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 107/108] fix: housemult: more reflectors than rows overran the
 operands

---
 src/lapack/housem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 809f602..05e6d61 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -340,7 +340,8 @@ int armas_housemult_w(armas_dense_t * X,
     }
     int ok = (flags & ARMAS_RIGHT) != 0
         ? Q->rows == X->cols : Q->rows == X->rows;
-    if (!ok) {
+    // there is at most one reflector for each row
+    if (!ok || Q->cols > Q->rows) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 65ff250f46d3555e7493176e20eccbf2a3216594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 108/108] fix: mult_rbt, update2_rbt: butterfly depth
 overflowed, recursion went on beyond the matrix

---
 src/lapack/rbtgm.c |  3 ++-
 src/lapack/rbtgu.c | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 8d0067f..6535901 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -374,7 +374,8 @@ int armas_mult_rbt(armas_dense_t * A, armas_dense_t * R, int flags,
         ok = A->rows == R->rows;
         break;
     }
-    if (!ok) {
+    // 2^d must be representable
+    if (!ok || R->cols >= 30) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 380b6c6..a950b81 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -142,6 +142,10 @@ int armas_update2_rbt_descend(
     EMPTY(UL);
     EMPTY(UR);
 
+    // nothing beyond the edge of matrix
+    if (A->rows == 0 || A->cols == 0)
+        return 0;
+
     if (U->cols == 1 || V->cols == 1) {
         // end of recursion; update current block
         update2_rbt(A, U, V, Nd, conf);
@@ -204,16 +208,17 @@ int armas_update2_rbt(armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    // extended size to multiple of 2^d
-    twod = 1 << U->cols;
-    Nd = (A->cols + twod - 1) & ~(twod - 1);
-
+    // 2^d must be representable
     ok = A->cols == A->rows && U->rows == V->rows
-        && U->cols == V->cols && U->rows >= A->rows;
+        && U->cols == V->cols && U->rows >= A->rows && U->cols < 30;
     if (!ok) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // extended size to multiple of 2^d
+    twod = 1 << U->cols;
+    Nd = (A->cols + twod - 1) & ~(twod - 1);
+
     if (armas_size(A) == 0 || armas_size(U) == 0)
         return 0;
 
-- 
2.43.0

