From e67e6528d37efb90db6a70a0c0172f118f0675a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 01/34] fix: pass the element size in bytes, not bits, for
 sized RMA in active message mode

---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From 8d4ec86d54bb6fa16ff4b0031cb75e5841e0bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 02/34] fix: quiet and fence skip spaces that are not attached
 (no windows yet)

---
 src/internal/order_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..b5b416a 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -52,6 +52,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) !=
+            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+            continue;   /* no window until attached */
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -83,6 +86,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) !=
+            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+            continue;   /* no window until attached */
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From f551cc78abe678bbb1283161a7755ba52c6cb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 03/34] fix: barrier_all completes operations on attached
 spaces

---
 src/internal/coll_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..f6be2f2 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -18,8 +18,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
 #endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion on attached spaces and AM completion (e.g., AM AMOs) */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From abe35f9c188d0202861e9f5dbe5ce9fd4d8c42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 04/34] fix: active-set barrier completes operations on
 attached spaces and to PEs outside the set

---
 src/internal/coll_activeset_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..30a568f 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -127,8 +127,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
     OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
 #endif
 
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion on attached spaces and AM completion (e.g., AM AMOs).
+     * The operations may have been issued to PEs outside the active set. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 42d68add4501fa0577bb41ac6135f0797415353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 05/34] fix: quiet and fence on a space context complete
 active-message operations

shmem_ctx_quiet/fence on a space context flushed only the window; atomics
issued as active messages on that context stayed incomplete.
---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index b5b416a..c01ee06 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM ordered delivery (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -72,6 +74,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM completion (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From c3e04d66bd0565ef64c516fb561af676d1061267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 06/34] fix: make AM progress before blocking communicator and
 window creation

MPI_Comm_create_group, MPI_Comm_split and the window creation of a space
block without serving active messages. A PE that waits for an AM response
(e.g. a fetching atomic) from a PE already blocked there never arrives.
---
 src/internal/coll_activeset_impl.h | 23 +++++++++++++++++++++++
 src/internal/space_impl.c          |  9 ++++++++-
 src/internal/team_impl.c           |  2 ++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 30a568f..44b0ece 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -70,6 +70,28 @@ OSHMPI_STATIC_INLINE_PREFIX int coll_find_comm_cache(int PE_start, int logPE_str
     return found;
 }
 
+/* Wait until all PEs in the active set have arrived while making AM progress.
+ * The following communicator creation is a blocking MPI call which makes no AM
+ * progress, thus it must not wait for a PE that still waits for an AM response. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_wait_active_set(int PE_start, int logPE_stride, int PE_size)
+{
+    const int pe_stride = 1 << logPE_stride;
+    const int my_idx = (OSHMPI_global.team_world_my_pe - PE_start) / pe_stride;
+    int dist;
+
+    for (dist = 1; dist < PE_size; dist <<= 1) {
+        MPI_Request reqs[2];
+        int dst = PE_start + ((my_idx + dist) % PE_size) * pe_stride;
+        int src = PE_start + ((my_idx - dist + PE_size) % PE_size) * pe_stride;
+
+        OSHMPI_CALLMPI(MPI_Irecv(NULL, 0, MPI_BYTE, src, 0 /* tag */ ,
+                                 OSHMPI_global.team_world_comm, &reqs[0]));
+        OSHMPI_CALLMPI(MPI_Isend(NULL, 0, MPI_BYTE, dst, 0 /* tag */ ,
+                                 OSHMPI_global.team_world_comm, &reqs[1]));
+        OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUSES_IGNORE);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -104,6 +126,7 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
 
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
+    coll_wait_active_set(PE_start, logPE_stride, PE_size);
     /* Only collective on the strided_group. */
     OSHMPI_CALLMPI(MPI_Comm_create_group
                    (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..9270870 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -280,6 +280,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* Make AM progress until all PEs arrive; the following MPI calls block
+     * without AM progress. */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
@@ -335,8 +339,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    /* Make AM progress until all PEs arrive; the following MPI calls block
+     * without AM progress. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..8899c24 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,8 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* Make AM progress until all PEs arrive; MPI_Comm_split blocks without AM progress. */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
-- 
2.43.0


From 4574d0a55166c6ad3e29337f1d34ef01731a76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 07/34] fix: shmem_team_sync synchronizes teams other than
 SHMEM_TEAM_WORLD

---
 src/internal/coll_impl.h | 7 +++++++
 src/shmem/coll.c         | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index f6be2f2..042abad 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -45,6 +45,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..5540df7 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -17,7 +17,13 @@ int shmem_team_sync(shmem_team_t team)
         OSHMPI_sync_all();
         return SHMEM_SUCCESS;
     }
-    return SHMEM_OTHER_ERR;
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_team_t *team_obj;
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From d772f85b7f034e3038caef2b37b3a0fc741053b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 08/34] fix: clear_lock completes pending updates before
 releasing the lock

---
 src/internal/lock_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..0874c51 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -103,6 +103,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     lock_next_disp = lock_last_disp + sizeof(int);
 
+    /* Ensure completion of all updates made while holding the lock; the next holder
+     * must see them. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
-- 
2.43.0


From 18215b05075aba73d65392fdcc52de10125072de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 09/34] fix: shmem_test_lock makes AM progress when the lock is
 taken

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 0874c51..59856ed 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -168,6 +168,9 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp)
         OSHMPI_DBGMSG("locked %p, curid=%d\n", lockp, curid - 1);
         return 0;
     }
+
+    /* The caller may retry until the holder, who may need AM progress here, releases it. */
+    OSHMPI_am_cb_progress();
     return 1;
 }
 
-- 
2.43.0


From f30811bfc83a0a5cf9023eef87fff203f42afd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 10/34] fix: locks use the displacement of each target PE

With dynamic windows a static lock may lie at different addresses on
different PEs; the displacement on PE 0 was used for all of them.
---
 src/internal/lock_impl.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 59856ed..4d1911f 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -24,6 +24,18 @@ typedef struct OSHMPI_lock_s {
                                  * other bits: next pe who is waiting on me to release this lock */
 } OSHMPI_lock_t;
 
+/* Displacement of a field of the lock on the given PE. The same field may have different
+ * displacements on different PEs (e.g., absolute addresses in a dynamic window). */
+OSHMPI_STATIC_INLINE_PREFIX MPI_Aint lock_get_disp(OSHMPI_sobj_attr_t * sobj_attr,
+                                                   OSHMPI_ictx_t * ictx, const void *field, int pe)
+{
+    MPI_Aint disp = -1;
+
+    OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, field, pe, OSHMPI_ICTX_DISP_MODE(ictx), &disp);
+    OSHMPI_ASSERT(disp >= 0);
+    return disp;
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 {
     int myid = OSHMPI_global.team_world_my_pe + 1;
@@ -46,7 +58,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = lock_get_disp(sobj_attr, ictx, (const void *) &lock->next,
+                                   OSHMPI_global.team_world_my_pe);
 
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
@@ -61,8 +74,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
-        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
-                                      1, MPI_UNSIGNED, MPI_BOR, ictx->win));
+        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1,
+                                      lock_get_disp(sobj_attr, ictx, (const void *) &lock->next,
+                                                    curid - 1), 1, MPI_UNSIGNED, MPI_BOR,
+                                      ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
         /* Wait till received release signal of this lock.
@@ -101,7 +116,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = lock_get_disp(sobj_attr, ictx, (const void *) &lock->next,
+                                   OSHMPI_global.team_world_my_pe);
 
     /* Ensure completion of all updates made while holding the lock; the next holder
      * must see them. */
@@ -132,8 +148,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
-        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
-                                      MPI_UNSIGNED, MPI_BOR, ictx->win));
+        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1,
+                                      lock_get_disp(sobj_attr, ictx, (const void *) &lock->next,
+                                                    nextid - 1), 1, MPI_UNSIGNED, MPI_BOR,
+                                      ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
         OSHMPI_DBGMSG("pass lock %p to %d\n", lockp, nextid - 1);
     }
-- 
2.43.0


From 62941ca4d61dddcfe55be5ba13e091e3f6d88a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 11/34] fix: active-set broadcast takes the root as an ordinal
 within the set

PE_root was compared with world ranks and then used as a rank of the set's
communicator, so sets other than 0..n-1 read the wrong PE or no root at all.
---
 src/internal/coll_activeset_impl.h | 44 ++++--------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 44b0ece..8e498d3 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -182,22 +182,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
@@ -206,29 +190,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    /* PE_root is the zero-based ordinal of the root within the active set, i.e., its rank
+     * in the communicator. The dest of the root is not updated. */
+    const int root_pe = PE_start + PE_root * (1 << logPE_stride);
+    OSHMPI_am_progress_mpi_bcast(root_pe == OSHMPI_global.team_world_my_pe ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 5857d7e5eeb04564162f636ca527a52bb0dd9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 12/34] fix: shmem_team_split_strided: no division by a zero
 stride, reject empty triplets

---
 src/shmem/team.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..29a5a03 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -122,11 +122,16 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
 
     /* sanity checks
      * 1. valid start pe rank
-     * 2. valid end pe rank */
+     * 2. valid size and stride; the stride is not used with a single pe
+     * 3. valid end pe rank */
     if (start < 0 || start >= _parent_team->n_pes) {
         goto fn_fail;
     }
 
+    if (size < 1 || (size > 1 && stride < 1)) {
+        goto fn_fail;
+    }
+
     int end_pe = start + stride * (size - 1);
     if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
         goto fn_fail;
@@ -137,7 +142,7 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
      * and size).
      * 2. rank of the PE must be selected by the (start, stride, size). */
     rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)
-        && ((_parent_team->my_pe - start) % stride == 0);
+        && (_parent_team->my_pe == start || (_parent_team->my_pe - start) % stride == 0);
 
     OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED, &_new_team);
 
-- 
2.43.0


From 065dd18d9bab4ed8374be7e6a3c5f03a38845227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 13/34] fix: symmetric heap never grows beyond its registered
 memory

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..f98f39a 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend the mspace with memory that is not remotely accessible */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend the mspace with memory that is not remotely accessible */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 774f6fd6179a7d0dc7f1c6d11180703f4002cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 14/34] fix: symmetric heap range covers the entire heap

---
 src/internal/setup_impl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index f98f39a..57a0a21 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,8 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    /* The mspace may place objects anywhere in the entire region. */
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -269,7 +270,8 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    /* The mspace may place objects anywhere in the entire region. */
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From 5b934e5d7c0a260c45d8a9840b15915376ca9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 15/34] fix: shmem_realloc waits for all PEs before it moves a
 block

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..42a1469 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -55,6 +55,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
     if (size == 0 && ptr == NULL)
         return ptr;
 
+    /* An existing block may be moved or freed, thus wait until all PEs no longer access it. */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From fc8e5ebf3846523eedf2dee2a1a5dfe85228982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 16/34] fix: shmem_realloc to size zero frees the block

---
 src/internal/mem_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 42a1469..72dcf95 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -60,7 +60,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
         OSHMPI_barrier_all();
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
-    rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
+    if (size == 0)
+        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);
+    else
+        rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_DBGMSG("ptr %p size %ld -> %p\n", ptr, size, rptr);
-- 
2.43.0


From 18127a94400dc11c3d60be8f039dedfc7eaef2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 17/34] fix: shmemx_space_calloc zeroes all elements before any
 PE can use them

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 26 ++++++++++++++++++++++++--
 src/shmemx/space.c        |  3 +--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..f2b3550 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 9270870..c529adf 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -365,8 +365,7 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 }
 
-/* Collectively allocate a buffer from the space */
-void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
+static void *space_alloc(OSHMPI_space_t * space, size_t size)
 {
     void *ptr = NULL;
 
@@ -376,6 +375,29 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
 
     OSHMPI_DBGMSG("space_malloc from space %p, size %ld -> ptr %p, disp 0x%lx\n",
                   space, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);
+    return ptr;
+}
+
+/* Collectively allocate a buffer from the space */
+void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
+{
+    void *ptr = space_alloc(space, size);
+
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
+/* Collectively allocate a zero-initialized buffer from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    if (size == 0 || count <= SIZE_MAX / size)
+        ptr = space_alloc(space, count * size);
+    /* Complete the initialization before any PE can access the buffer */
+    if (ptr)
+        memset(ptr, 0, count * size);
+
     OSHMPI_barrier_all();
     return ptr;
 }
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 2b7fe54b6cdc4e68f817bac5d7b4a76e8b15a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 18/34] fix: align space heap so that shmemx_space_align is
 honoured

---
 src/internal/space_impl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index c529adf..e21d58f 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Buffers start at a multiple of the page size, see space_align */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -405,6 +407,12 @@ void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
+    /* Every chunk is aligned to the page size. We cannot ensure a larger alignment
+     * at the same offset on all PEs. */
+    if (alignment > OSHMPI_global.page_sz) {
+        OSHMPI_barrier_all();
+        return NULL;
+    }
     return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
 }
 
-- 
2.43.0


From b343e97ec37dbd8f976fbb9f5d678b05585c1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 19/34] fix: reject zero-size and oversized requests in the
 memory pool

---
 src/internal/util/mem_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..6864c94 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,10 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    /* Nothing to allocate, or more than the entire region */
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From 91d7a3b82f8caca29374cf8833cbc0ba48fd3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:11 +0000
Subject: [PATCH 20/34] fix: shmem_ctx_destroy completes the operations of the
 context

---
 src/shmem/context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shmem/context.c b/src/shmem/context.c
index f33e021..7376f5c 100644
--- a/src/shmem/context.c
+++ b/src/shmem/context.c
@@ -23,6 +23,7 @@ void shmem_ctx_destroy(shmem_ctx_t ctx)
     if (ctx == SHMEM_CTX_INVALID || ctx == SHMEM_CTX_DEFAULT) {
         return;
     }
+    OSHMPI_ctx_quiet(ctx);      /* Implicit quiet is required by the specification */
     OSHMPI_ctx_destroy((OSHMPI_ctx_t *) ctx);
 }
 
-- 
2.43.0


From 46d7ed912234021fa3b4caf037846f5283c0bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 21/34] fix: shmem_addr_accessible knows the memory of attached
 spaces

---
 src/shmem/setup.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..0103bae 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,28 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    OSHMPI_space_t *space, *tmp;
+    int accessible = 0;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    if (OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr))
+        return 1;
+
+    /* Memory of a space is accessible while the space is attached */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) ==
+            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP && OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            accessible = 1;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
+    return accessible;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From c7846ebfabaeb744578e5536ab360e536a1d5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 22/34] fix: read the heap size setting in double precision

---
 src/include/oshmpi_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..ac64cc8 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -147,7 +147,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
     double val;
     char *e;
 
-    val = (double) strtof(s, &e);
+    val = strtod(s, &e);
     if (e == NULL || *e == '\0')
         return val;
 
-- 
2.43.0


From 91d23976d99b76534194acd6bc76fd5785c74f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 23/34] fix: OSHMPI_AMO_OPS accepts the documented value all

---
 src/internal/setup_impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 57a0a21..5fcbbc2 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -310,7 +310,7 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
     if (!strncmp(value, "none", strlen("none"))) {
         *ops_ptr = 0;
         return;
-    } else if (!strncmp(value, "any_op", strlen("any_op"))) {
+    } else if (!strncmp(value, "any_op", strlen("any_op")) || !strncmp(value, "all", strlen("all"))) {
         OSHMPI_amo_op_shift_t op_shift;
         /* add all ops */
         for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
-- 
2.43.0


From dc7473381c5bd48208e7416e009be85e7186d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 24/34] fix: complete pending operations in finalize

---
 src/internal/setup_impl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 5fcbbc2..f5f13ec 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -866,9 +866,8 @@ static void finalize_impl(void)
 
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+     * are released until all PEs have entered shmem_finalize. */
+    OSHMPI_barrier_all();
 
     OSHMPI_coll_finalize();
     OSHMPI_am_finalize();
-- 
2.43.0


From eb124ec56d33da182b8041761bc29d399585f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 25/34] fix: reuse active message tags after the upper bound

---
 src/include/oshmpi_util.h | 2 +-
 src/internal/am_impl.h    | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index ac64cc8..0f3e747 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -229,7 +229,7 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPIU_single_thread_finc_int(int *val)
 {
     int prev;
     prev = *val;
-    (*val)++;
+    *val = (int) ((unsigned int) prev + 1);      /* wraps around */
     return prev;
 }
 
diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..dec82bd 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,9 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
-    return tag;
+    /* Reuse tags after the upper bound; MPI orders messages that share a tag. */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    unsigned int range = (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START);
+    return (int) (off % range) + OSHMPI_AM_PKT_PTAG_START;
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
-- 
2.43.0


From 97de0f88cb5b2c85ab3f5e9de275027afb660fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 26/34] fix: quiet and fence only touch spaces whose window is
 ready

---
 src/include/oshmpi_impl.h |  2 ++
 src/internal/order_impl.h |  6 ++----
 src/internal/space_impl.c | 26 +++++++++++++++++++++-----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index f2b3550..257a5ca 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -161,6 +161,8 @@ typedef struct OSHMPI_space {
     OSHMPI_ictx_t default_ictx;
 #endif
     OSHMPI_ctx_t *ctx_list;     /* contexts created for this space. */
+    int attached;               /* Whether the windows exist. Protected by space_list.cs as other
+                                 * threads may flush them at any time. */
 
     shmemx_space_config_t config;
     struct OSHMPI_space *next;
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index c01ee06..f63d9e4 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -54,8 +54,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) !=
-            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+        if (!space->attached)
             continue;   /* no window until attached */
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
@@ -90,8 +89,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) !=
-            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+        if (!space->attached)
             continue;   /* no window until attached */
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index e21d58f..9be1b78 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -199,18 +199,20 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
+    space->attached = 0;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
     space->default_ictx.win = MPI_WIN_NULL;
     OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
 #endif
 
+    /* Make it visible to other threads after it is set */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
@@ -296,8 +298,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
      * TODO: need collectively define index when adding teams */
     int symm_flag = 0;
     OSHMPI_sobj_symm_info_allgather(&space->sobj_attr, &symm_flag);
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_ATTACHED_HEAP,
                            symm_flag, space_attach_idx);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
     space_attach_idx++;
 
     /* Create internal window */
@@ -333,6 +337,11 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
         }
     }
 
+    /* Let other threads flush the windows */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    space->attached = 1;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     OSHMPI_CALLMPI(MPI_Info_free(&info));
 }
 
@@ -345,6 +354,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
      * without AM progress. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 
+    /* Other threads must not flush the windows any more */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    space->attached = 0;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
@@ -363,8 +377,10 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
     OSHMPIU_free(space->ctx_list);
     space->ctx_list = NULL;
 
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     OSHMPI_sobj_destroy_attr(&space->sobj_attr);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
 }
 
 static void *space_alloc(OSHMPI_space_t * space, size_t size)
-- 
2.43.0


From 5ec788a3df8ced7ade9b83f90b34b05ef4a14d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 27/34] fix: do not reset operation tracking with multiple
 threads

---
 src/internal/order_impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index f63d9e4..0dc7b60 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -15,7 +15,11 @@
 #endif
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define RESET_FLAG(flag) do {OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);} while (0)
+/* Threaded: another thread may have issued an operation since the flush, thus never reset. */
+#define RESET_FLAG(flag) do {                                       \
+        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)    \
+            OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);                     \
+    } while (0)
 #else
 #define RESET_FLAG(flag) do {} while (0)
 #endif
-- 
2.43.0


From 86df5af784d92aa22ec5cb578f8a67e28a1c2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 28/34] fix: do not reset active-message tracking with multiple
 threads

---
 src/internal/am_impl.h     | 7 ++-----
 src/internal/am_pre.h      | 7 +++++++
 src/internal/amo_am_impl.h | 4 ++--
 src/internal/rma_am_impl.h | 4 ++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index dec82bd..026ab23 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -69,13 +69,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);
     OSHMPIU_free(reqs);
 
-    /* Reset all flags
-     * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+    /* Reset all flags */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
     }
 }
 
diff --git a/src/internal/am_pre.h b/src/internal/am_pre.h
index f9e0536..70427b7 100644
--- a/src/internal/am_pre.h
+++ b/src/internal/am_pre.h
@@ -170,6 +170,13 @@ typedef struct OSHMPI_am_global {
 
 extern OSHMPI_am_global_t OSHMPI_am;
 
+/* Note that no AM is outstanding on the PE after a synchronization with it.
+ * Threaded: another thread may have issued an AM since then, thus never reset. */
+#define OSHMPI_AM_RESET_OUTSTANDING_OP(pe) do {                              \
+        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)             \
+            OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);\
+    } while (0)
+
 #define OSHMPI_AM_PKT_NAME_MAXLEN 128
 typedef void (*OSHMPI_am_cb_t) (int origin_rank, OSHMPI_am_pkt_t * pkt);
 
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..80c1360 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -45,7 +45,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -88,7 +88,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..e257f27 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -77,7 +77,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -169,7 +169,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
-- 
2.43.0


From 5419136f28a94c87b12863ffec5f7da8fef56c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 29/34] fix: release teams that the program left at finalize

---
 src/include/oshmpi_impl.h |  9 +++++++++
 src/internal/setup_impl.c |  4 ++--
 src/internal/team_impl.c  | 25 +++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 257a5ca..1a5dce9 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -182,8 +182,14 @@ typedef struct OSHMPI_team {
     MPI_Comm comm;
     MPI_Group group;
     shmem_team_config_t config;
+    struct OSHMPI_team *prev, *next;    /* in the list of all teams */
 } OSHMPI_team_t;
 
+typedef struct OSHMPI_team_list {
+    OSHMPI_team_t *head;
+    OSHMPIU_thread_cs_t cs;
+} OSHMPI_team_list_t;
+
 typedef struct {
     int is_initialized;
     int is_start_pes_initialized;
@@ -219,6 +225,7 @@ typedef struct {
     OSHMPIU_thread_cs_t symm_heap_mspace_cs;
 
     OSHMPI_space_list_t space_list;
+    OSHMPI_team_list_t team_list;
 
     unsigned int amo_direct;    /* Valid only when --enable-amo=runtime is set.
                                  * User may control it through env var
@@ -397,6 +404,8 @@ void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx);
 
+void OSHMPI_team_initialize(void);
+void OSHMPI_team_finalize(void);
 int OSHMPI_team_create(OSHMPI_team_t ** team);
 void OSHMPI_team_destroy(OSHMPI_team_t ** team);
 int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team);
diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index f5f13ec..3ecfdbf 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -805,6 +805,7 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_world_comm, &OSHMPI_global.team_world_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_world_comm, &OSHMPI_global.team_world_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_world_comm, &OSHMPI_global.team_world_group));
+    OSHMPI_team_initialize();
     OSHMPI_team_create(&OSHMPI_global.team_world);
     OSHMPI_global.team_world->comm = OSHMPI_global.team_world_comm;
     OSHMPI_global.team_world->group = OSHMPI_global.team_world_group;
@@ -904,8 +905,7 @@ static void finalize_impl(void)
     OSHMPI_sobj_destroy_attr(&OSHMPI_global.symm_heap_attr);
     OSHMPI_global.is_initialized = 0;
 
-    OSHMPI_team_destroy(&OSHMPI_global.team_shared);
-    OSHMPI_team_destroy(&OSHMPI_global.team_world);
+    OSHMPI_team_finalize();
 
     OSHMPI_CALLMPI(MPI_T_finalize());
     OSHMPI_CALLMPI(MPI_Finalize());
diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 8899c24..f049356 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -6,6 +6,23 @@
 
 #include "oshmpi_impl.h"
 
+void OSHMPI_team_initialize(void)
+{
+    OSHMPI_THREAD_INIT_CS(&OSHMPI_global.team_list.cs);
+}
+
+/* Destroy the predefined teams and those the user has not destroyed. */
+void OSHMPI_team_finalize(void)
+{
+    while (OSHMPI_global.team_list.head) {
+        OSHMPI_team_t *team = OSHMPI_global.team_list.head;
+        OSHMPI_team_destroy(&team);
+    }
+    OSHMPI_global.team_world = NULL;
+    OSHMPI_global.team_shared = NULL;
+    OSHMPI_THREAD_DESTROY_CS(&OSHMPI_global.team_list.cs);
+}
+
 int OSHMPI_team_create(OSHMPI_team_t ** team)
 {
     int rc = SHMEM_SUCCESS;
@@ -24,6 +41,10 @@ int OSHMPI_team_create(OSHMPI_team_t ** team)
     new_team->comm = MPI_COMM_NULL;
     new_team->group = MPI_GROUP_NULL;
 
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.team_list.cs);
+    DL_APPEND(OSHMPI_global.team_list.head, new_team);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.team_list.cs);
+
     *team = new_team;
 
   fn_exit:
@@ -34,6 +55,10 @@ int OSHMPI_team_create(OSHMPI_team_t ** team)
 
 void OSHMPI_team_destroy(OSHMPI_team_t ** team)
 {
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.team_list.cs);
+    DL_DELETE(OSHMPI_global.team_list.head, *team);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.team_list.cs);
+
     OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));
     OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));
     OSHMPIU_free(*team);
-- 
2.43.0


From ba45d5a40441e74276a07c9f9102cc2cbf87b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 30/34] fix: provide shmem_wait and shmem_wait_until to pre-C11
 programs

---
 include/shmem.h.in.tpl | 2 +-
 src/shmem/p2p.c        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shmem.h.in.tpl b/include/shmem.h.in.tpl
index 09e8a81..d673c41 100644
--- a/include/shmem.h.in.tpl
+++ b/include/shmem.h.in.tpl
@@ -320,8 +320,8 @@ void shmem_alltoalls64(void *dest, const void *source, ptrdiff_t dst, ptrdiff_t
 /* (deprecated APIs) */
 #if (OSHMPI_HAVE_C11 == 0)
 void shmem_wait_until(long *ivar, int cmp, long cmp_value);
-void shmem_wait(long *ivar, long cmp_value);
 #endif
+void shmem_wait(long *ivar, long cmp_value);
 void shmem_short_wait(short *ivar, short cmp_value);
 void shmem_int_wait(int *ivar, int cmp_value);
 void shmem_long_wait(long *ivar, long cmp_value);
diff --git a/src/shmem/p2p.c b/src/shmem/p2p.c
index b35b2bc..40ea8f5 100644
--- a/src/shmem/p2p.c
+++ b/src/shmem/p2p.c
@@ -8,7 +8,9 @@
 #include "oshmpi_impl.h"
 
 /* Deprecated APIs start */
-#if (OSHMPI_HAVE_C11 == 0)
+/* Pre-C11 programs need this symbol also when the library is compiled as C11,
+ * where the name is a generic macro. */
+#undef shmem_wait_until
 void shmem_wait_until(long *ivar, int cmp, long cmp_value)
 {
     /* Does not return until ivar satisfies the condition implied by cmp and cmp_value. */
@@ -20,7 +22,6 @@ void shmem_wait(long *ivar, long cmp_value)
     /* Return when ivar is no longer equal to cmp_value. */
     OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, long, MPI_LONG);
 }
-#endif
 
 void shmem_short_wait(short *ivar, short cmp_value)
 {
-- 
2.43.0


From 6de365c023cdbcf5591c891f6935a2b3a614cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 31/34] fix: split contiguous transfers that exceed the MPI
 count limit

---
 src/internal/rma_am_impl.h | 42 +++++++++++++++++++++++++++++--
 src/internal/rma_impl.h    | 51 ++++++++++++++++++++++++++++++--------
 2 files changed, 81 insertions(+), 12 deletions(-)

diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index e257f27..1fe8638 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -7,10 +7,16 @@
 #ifndef INTERNAL_RMA_AM_IMPL_H
 #define INTERNAL_RMA_AM_IMPL_H
 
+#include <limits.h>
 #include "oshmpi_impl.h"
 
+/* Number of elements to transfer by the next piece of a large contiguous transfer.
+ * MPI counts are int, and so is the number of bytes the target of a packet handles. */
+#define OSHMPI_RMA_PIECE_NELEMS(nelems, typesz) \
+    ((nelems) > (size_t) INT_MAX / (typesz) ? (size_t) INT_MAX / (typesz) : (nelems))
+
 /* Issue a PUT operation. Return immediately after sent PUT packet (local complete) */
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
+OSHMPI_STATIC_INLINE_PREFIX void rma_am_put_piece(OSHMPI_ictx_t * ictx,
                                                    MPI_Datatype mpi_type, size_t typesz,
                                                    const void *origin_addr, void *target_addr,
                                                    size_t nelems, int pe,
@@ -44,8 +50,24 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
     OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);
 }
 
+/* Issue a PUT operation of any size. */
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
+                                                   MPI_Datatype mpi_type, size_t typesz,
+                                                   const void *origin_addr, void *target_addr,
+                                                   size_t nelems, int pe,
+                                                   OSHMPI_sobj_attr_t * sobj_attr)
+{
+    size_t done, cnt;
+
+    for (done = 0; done < nelems; done += cnt) {
+        cnt = OSHMPI_RMA_PIECE_NELEMS(nelems - done, typesz);
+        rma_am_put_piece(ictx, mpi_type, typesz, (const char *) origin_addr + done * typesz,
+                         (char *) target_addr + done * typesz, cnt, pe, sobj_attr);
+    }
+}
+
 /* Issue a GET operation. Return after receiving return value. */
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
+OSHMPI_STATIC_INLINE_PREFIX void rma_am_get_piece(OSHMPI_ictx_t * ictx,
                                                    MPI_Datatype mpi_type, size_t typesz,
                                                    void *origin_addr, const void *target_addr,
                                                    size_t nelems, int pe,
@@ -80,6 +102,22 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
     OSHMPI_AM_RESET_OUTSTANDING_OP(pe);
 }
 
+/* Issue a GET operation of any size. */
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
+                                                   MPI_Datatype mpi_type, size_t typesz,
+                                                   void *origin_addr, const void *target_addr,
+                                                   size_t nelems, int pe,
+                                                   OSHMPI_sobj_attr_t * sobj_attr)
+{
+    size_t done, cnt;
+
+    for (done = 0; done < nelems; done += cnt) {
+        cnt = OSHMPI_RMA_PIECE_NELEMS(nelems - done, typesz);
+        rma_am_get_piece(ictx, mpi_type, typesz, (char *) origin_addr + done * typesz,
+                         (const char *) target_addr + done * typesz, cnt, pe, sobj_attr);
+    }
+}
+
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iput(OSHMPI_ictx_t * ictx,
                                                     MPI_Datatype mpi_type,
diff --git a/src/internal/rma_impl.h b/src/internal/rma_impl.h
index 09463a6..58ce334 100644
--- a/src/internal/rma_impl.h
+++ b/src/internal/rma_impl.h
@@ -52,6 +52,39 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_get_nbi_impl(OSHMPI_ictx_t * ictx,
     OSHMPI_SET_OUTSTANDING_OP(ictx, completion);        /* GET can be outstanding or completed */
 }
 
+/* Contiguous transfers of any size; split as MPI counts are limited to int. */
+OSHMPI_STATIC_INLINE_PREFIX void ctx_put_contig_nbi_impl(OSHMPI_ictx_t * ictx,
+                                                         MPI_Datatype mpi_type, size_t typesz,
+                                                         const void *origin_addr,
+                                                         void *target_addr, size_t nelems, int pe,
+                                                         OSHMPI_sobj_attr_t * sobj_attr)
+{
+    size_t done, cnt;
+
+    for (done = 0; done < nelems; done += cnt) {
+        cnt = OSHMPI_RMA_PIECE_NELEMS(nelems - done, typesz);
+        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, (const char *) origin_addr + done * typesz,
+                         (char *) target_addr + done * typesz, cnt, cnt, pe, sobj_attr);
+    }
+}
+
+OSHMPI_STATIC_INLINE_PREFIX void ctx_get_contig_nbi_impl(OSHMPI_ictx_t * ictx,
+                                                         MPI_Datatype mpi_type, size_t typesz,
+                                                         void *origin_addr,
+                                                         const void *target_addr, size_t nelems,
+                                                         int pe, int completion,
+                                                         OSHMPI_sobj_attr_t * sobj_attr)
+{
+    size_t done, cnt;
+
+    for (done = 0; done < nelems; done += cnt) {
+        cnt = OSHMPI_RMA_PIECE_NELEMS(nelems - done, typesz);
+        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, (char *) origin_addr + done * typesz,
+                         (const char *) target_addr + done * typesz, cnt, cnt, pe, completion,
+                         sobj_attr);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void ctx_iput_nbi_impl(OSHMPI_ictx_t * ictx,
                                                    MPI_Datatype mpi_type, const void *origin_addr,
                                                    void *target_addr, ptrdiff_t target_st,
@@ -119,8 +152,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put_nbi(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_PUT))
-        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems,
-                         nelems, pe, sobj_attr);
+        ctx_put_contig_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                sobj_attr);
     else        /* TODO: nonblocking version of AM PUT */
         OSHMPI_rma_am_put(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
@@ -140,8 +173,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_PUT)) {
-        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems,
-                         nelems, pe, sobj_attr);
+        ctx_put_contig_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                sobj_attr);
         ctx_local_complete_impl(pe, ictx);
     } else
         OSHMPI_rma_am_put(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
@@ -187,9 +220,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get_nbi(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_GET)) {
-        /* TODO: check non-int inputs exceeds int limit */
-        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
-                         nelems, nelems, pe, OSHMPI_OP_OUTSTANDING, sobj_attr);
+        ctx_get_contig_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                OSHMPI_OP_OUTSTANDING, sobj_attr);
     } else      /* TODO: nonblocking version of AM GET */
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
@@ -209,9 +241,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_GET)) {
-        /* TODO: check non-int inputs exceeds int limit */
-        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
-                         nelems, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);
+        ctx_get_contig_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                OSHMPI_OP_COMPLETED, sobj_attr);
         ctx_local_complete_impl(pe, ictx);
     } else
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
-- 
2.43.0


From e008a554969036dd0415c17c08c39d3828f1e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 32/34] fix: support strides that exceed the MPI vector stride
 limit

---
 src/internal/strided_impl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/internal/strided_impl.h b/src/internal/strided_impl.h
index 3dc4926..a363760 100644
--- a/src/internal/strided_impl.h
+++ b/src/internal/strided_impl.h
@@ -6,6 +6,7 @@
 #ifndef INTERNAL_STRIDED_IMPL_H
 #define INTERNAL_STRIDED_IMPL_H
 
+#include <limits.h>
 #include "oshmpi_impl.h"
 
 #ifdef OSHMPI_ENABLE_STRIDED_DTYPE_CACHE
@@ -143,7 +144,14 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
     MPI_Aint lb, extent;
     int typesize;
 
-    OSHMPI_CALLMPI(MPI_Type_vector((int) nelems, 1, (int) stride, mpi_type, &vtype));
+    if (stride >= INT_MIN && stride <= INT_MAX)
+        OSHMPI_CALLMPI(MPI_Type_vector((int) nelems, 1, (int) stride, mpi_type, &vtype));
+    else {
+        /* The stride exceeds the int limit, thus specify it in bytes */
+        OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+        OSHMPI_CALLMPI(MPI_Type_create_hvector((int) nelems, 1, (MPI_Aint) stride * extent,
+                                               mpi_type, &vtype));
+    }
 
     /* Vector does not count stride after last chunk, thus we need to resize to
      * cover it when multiple elements with the stride_datatype may be used (i.e., alltoalls).
-- 
2.43.0


From a794f41dba4d41525a3b5fb457ebaedcf46b38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 33/34] fix: create SHMEM_TEAM_SHARED by node

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 3ecfdbf..14b69ba 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -814,9 +814,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From 5f1b25ce4a10eac38922f678379f513c353096f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:20 +0000
Subject: [PATCH 34/34] fix: create communicators of different active sets with
 different tags

---
 src/internal/coll_activeset_impl.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 8e498d3..18f417a 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -92,6 +92,19 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_wait_active_set(int PE_start, int logPE_st
     }
 }
 
+/* Get the tag for creating the communicator of an active set. It is different for every
+ * active set as long as the MPI implementation supports sufficient tags. */
+OSHMPI_STATIC_INLINE_PREFIX int coll_get_active_set_tag(int PE_start, int logPE_stride, int PE_size)
+{
+    const unsigned long n_pes = OSHMPI_global.team_world_n_pes;
+    unsigned long id = PE_start + n_pes * (PE_size - 1 + n_pes * logPE_stride);
+    int *tag_ub = NULL, flag = 0;
+
+    OSHMPI_CALLMPI(MPI_Comm_get_attr(MPI_COMM_WORLD, MPI_TAG_UB, &tag_ub, &flag));
+    OSHMPI_ASSERT(flag);
+    return (int) (id % *tag_ub);
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -127,9 +140,11 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
     coll_wait_active_set(PE_start, logPE_stride, PE_size);
-    /* Only collective on the strided_group. */
-    OSHMPI_CALLMPI(MPI_Comm_create_group
-                   (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
+    /* Only collective on the strided_group. Threads may create the communicators of
+     * different active sets concurrently, thus the tag must identify the active set. */
+    OSHMPI_CALLMPI(MPI_Comm_create_group(OSHMPI_global.team_world_comm, strided_group,
+                                         coll_get_active_set_tag(PE_start, logPE_stride, PE_size),
+                                         comm));
     OSHMPIU_free(pe_list);
 
     coll_set_comm_cache(PE_start, logPE_stride, PE_size, *comm, strided_group);
-- 
2.43.0

