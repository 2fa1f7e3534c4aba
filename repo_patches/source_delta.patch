From 2a419b32af44ff3ac2346cc1899e18af750012ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 01/26] fix: read group options before initializing the world
 group

ARMCI_NONCOLLECTIVE_GROUPS and ARMCI_CACHE_RANK_TRANSLATION were read after
ARMCII_Group_init_from_comm had used them for the world group, so noncollective
group creation used MPI_COMM_NULL and ARMCI_Finalize freed MPI_COMM_NULL.
---
 src/init_finalize.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..89574d7 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,16 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - these must be known before the world group is initialized */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,16 +293,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
-
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
-  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
-
   /* Check for IOV and Strided flags */
 
   /* Relevant bugs:
-- 
2.43.0


From 95e73932a5d5bd739008befc8a7b728bb5821e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 02/26] fix: initialize the rank translation caches of a group
 the caller is not in

With caching enabled, a group with MPI_COMM_NULL kept whatever the caller's
ARMCI_Group held in abs_to_grp and grp_to_abs, and ARMCI_Group_free freed it.
---
 src/groups.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..0b40230 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -37,6 +37,9 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
   else
     group->noncoll_pgroup_comm = MPI_COMM_NULL;
 
+  group->abs_to_grp = NULL;
+  group->grp_to_abs = NULL;
+
   /* Check if translation caching is enabled */
   if (ARMCII_GLOBAL_STATE.cache_rank_translation) {
     if (group->comm != MPI_COMM_NULL) {
@@ -64,12 +67,6 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
       free(ranks);
     }
   }
-  
-  /* Translation caching is disabled */
-  else {
-    group->abs_to_grp = NULL;
-    group->grp_to_abs = NULL;
-  }
 }
 
 
-- 
2.43.0


From f2e6e337250b239e6a659789f679d52b6f37cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 03/26] fix: fencing a process must not abort when a group
 allocation excludes it

ARMCI_Fence, ARMCI_WaitProc and the put-with-flag operations flush every region,
and gmr_flush asserted that the target is a member of each region's group.
---
 src/gmr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..44d98d7 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -989,7 +989,12 @@ int gmr_flush(gmr_t *mreg, int proc, int local_only) {
   int grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   int grp_me   = ARMCII_Translate_absolute_to_group(&mreg->group, ARMCI_GROUP_WORLD.rank);
 
-  ARMCII_Assert(grp_proc >= 0 && grp_me >= 0);
+  /* The target may be outside of the group this region was allocated on
+   * (Fence and WaitProc visit every region); nothing can be pending there. */
+  if (grp_proc < 0)
+    return 0;
+
+  ARMCII_Assert(grp_me >= 0);
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
   ARMCII_Assert_msg(grp_proc < mreg->group.size, "grp_proc exceeds group size!");
 
-- 
2.43.0


From f0aa7c495668d0f463613c3527bb6774e309e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 04/26] fix: range check of fetch-and-op must include the size
 of the element

The check only compared the displacement of the target with the size of the
slice, so an ARMCI_Rmw whose target straddles the end of the allocation was
passed on to MPI instead of being rejected.
---
 src/gmr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index 44d98d7..ba2852a 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -906,6 +906,7 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 		MPI_Datatype type, MPI_Op op, int proc)
 {
   int        grp_proc;
+  int        type_size;
   gmr_size_t disp;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
@@ -916,8 +917,9 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
+  MPI_Type_size(type, &type_size);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + type_size <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From dda3b399e80fb5da1651bfe60cda089fab921f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 05/26] fix: ARMCI_Test must report a handle with no pending
 operation as complete

Operations completed through shared memory (or blocking inside the call) leave
the handle inactive; ARMCI_Test then returned non-zero (incomplete) forever.
---
 src/onesided_nb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..c1c96ba 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -330,6 +330,9 @@ int PARMCI_Test(armci_hdl_t* handle)
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
 
+    // there is nothing to wait for
+    flag = 1;
+
   } else if (handle->batch_size == 1) {
 
     if (handle->single_request == MPI_REQUEST_NULL) {
-- 
2.43.0


From 419368e987a62a45d83cc2751e6080c326fd99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 06/26] fix: nonblocking vector accumulate freed its scaled
 source while in flight

ARMCI_NbAccV (and ARMCI_NbAccS through the IOV method) released the scaled copy
of the source right after issuing the accumulates.  Complete them locally first.
---
 src/vector_nb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..98d46cc 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -130,6 +130,11 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
       blocking = 1;
   }
 
+  /* The scaled copy of the source is freed below, so it must not be in flight any more */
+  if (ARMCII_Buf_acc_is_scaled(datatype, scale)) {
+      blocking = 1;
+  }
+
   for (int v = 0; v < iov_len; v++) {
     void **src_buf;
     int    overlapping, same_alloc;
-- 
2.43.0


From 4912b88ee8f94378892f2da82a4d43677f5005dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 07/26] fix: DIRECT strided transfers with strides that are not
 multiples of each other

The subarray dimensions were computed by truncating divisions of adjacent
strides, so such an access moved the wrong bytes or was an invalid datatype.
---
 src/strided.c | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..0870e17 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -12,7 +12,7 @@
 #include <debug.h>
 
 
-/** Convert an ARMCI strided access description into an MPI subarray datatype.
+/** Convert an ARMCI strided access description into an MPI datatype (nested vectors).
   *
   * @param[in]  stride_array    Array of strides
   * @param[in]  count           Array of transfer counts
@@ -23,9 +23,6 @@
 void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
                              int stride_levels, MPI_Datatype old_type, MPI_Datatype *new_type)
 {
-  int sizes   [stride_levels+1];
-  int subsizes[stride_levels+1];
-  int starts  [stride_levels+1];
   int i, old_type_size;
 
   MPI_Type_size(old_type, &old_type_size);
@@ -56,29 +53,20 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   /* Transfer is non-contiguous */
   else {
 
-    for (i = 0; i < stride_levels+1; i++)
-      starts[i] = 0;
-
-    sizes   [stride_levels] = stride_array[0]/old_type_size;
-    subsizes[stride_levels] = count[0]/old_type_size;
+    MPI_Datatype inner_type;
 
     ARMCII_Assert((stride_array[0] % old_type_size) == 0);
     ARMCII_Assert((count[0] % old_type_size) == 0);
 
-    for (i = 1; i < stride_levels; i++) {
-      /* Convert strides into dimensions by dividing out contributions from lower dims */
-      sizes   [stride_levels-i] = stride_array[i]/stride_array[i-1];
-      subsizes[stride_levels-i] = count[i];
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, new_type);
 
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.  
-       * ARMCII_Assert_msg((stride_array[i] % stride_array[i-1]) == 0, "Invalid striding"); */
+    /* Strides need not be multiples of the next lower stride, so a subarray can't
+     * describe every strided access. */
+    for (i = 0; i < stride_levels; i++) {
+      inner_type = *new_type;
+      MPI_Type_create_hvector(count[i+1], 1, stride_array[i], inner_type, new_type);
+      MPI_Type_free(&inner_type);
     }
-
-    sizes   [0] = count[stride_levels];
-    subsizes[0] = count[stride_levels];
-
-    MPI_Type_create_subarray(stride_levels+1, sizes, subsizes, starts, MPI_ORDER_C, old_type, new_type);
   }
 }
 
-- 
2.43.0


From dd922c0f0b58f908175b5703c353158b99f1175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 08/26] fix: conservative vector operations must look up every
 segment's allocation

The conservative method exists for remote segments in several allocations, but
used the first segment's region for all of them and aborted.
---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..09f583c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* The remote pointers may belong to different allocations */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From 55c0ee9c65ee05177fe6571dcf297df49c44ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 09/26] fix: range check of DIRECT vector operations compared
 elements with bytes

An accumulate whose last segment ended behind the allocation passed the check.
---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 09f583c..d852da8 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -372,7 +372,7 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
     }
 
-- 
2.43.0


From 1b4d0f8f7fd5945b8bc5d3c90d03a4fe8b28da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 10/26] fix: absmin/absmax in node scope must take the absolute
 value

Node scope reduces over MPI_COMM_SELF, where the operator is never applied; only
groups of one process were treated as the unary case.
---
 src/message_gop.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..e4cb93c 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -203,8 +203,8 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   ARMCII_Buf_prepare_read_vec(&x, &x_buf, 1, n*mpi_type_size);
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
-  // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  // single processor case (including node scope) when reduce would normally just be a no-op.
+  if ((group->size == 1 || comm == MPI_COMM_SELF) && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From b3f18080cec99e1b8caa19e07531d063dc2f6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 11/26] fix: armci_msg_sel lost its result when shared buffers
 are copied

With ARMCI_SHR_BUF_METHOD=COPY and x in global memory the result was written to
x and then overwritten with the old contents from the private copy.
---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..12aa5b1 100644
--- a/src/message.c
+++ b/src/message.c
@@ -436,7 +436,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From cb00789b958aeb39872150537c179aebe8790175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 12/26] fix: a short message must not overwrite the rest of the
 receive buffer

With ARMCI_SHR_BUF_METHOD=COPY and the buffer in global memory, armci_msg_rcv and
armci_msg_rcvany copied back all of the temporary buffer, not just the message.
---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 12aa5b1..ddd2402 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,16 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 }
 
 
@@ -223,14 +225,16 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From 1f95c45b89dd9753ad6ef8d9b4506b68b6bff0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 13/26] fix: armci_msg_sel must reduce its packet as one
 element

The packet was reduced as a vector of MPI_BYTE, which MPI may hand to the operator
in segments; the operator then reads a header from the middle of the data.
---
 src/message.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index ddd2402..1953450 100644
--- a/src/message.c
+++ b/src/message.c
@@ -304,6 +304,12 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* One element of the datatype is a whole packet */
+  MPI_Type_size(*datatype, &size);
+  ARMCII_Assert(*len == 1);
+  len = &size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
@@ -351,6 +357,12 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* One element of the datatype is a whole packet */
+  MPI_Type_size(*datatype, &size);
+  ARMCII_Assert(*len == 1);
+  len = &size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
@@ -407,6 +419,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   MPI_Comm    sel_comm;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
+  MPI_Datatype sel_type;
 
   /*
   printf("[%d] armci_msg_sel_scope(scope=%d, x=%p, n=%d, op=%s, type=%d, contribute=%d)\n",
@@ -432,14 +445,20 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x, data_in->data, n);
 
+  /* The whole packet is one element, so MPI can't split it when reducing. */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
+  MPI_Type_free(&sel_type);
+
   ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
-- 
2.43.0


From 423ddab4ab31d4eb079337561f8007da4700d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 14/26] fix: ARMCIX_Progress must poke MPI when progress of
 nonblocking calls is disabled

---
 src/util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 2229c77..b944f6d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -204,7 +204,10 @@ void ARMCII_Getenv_char(char * output, const char *varname, const char *default_
 
 void ARMCIX_Progress(void)
 {
-    gmr_progress();
+    /* An explicit request for progress (and the progress thread) must reach MPI
+     * even when progress at the end of nonblocking calls is disabled. */
+    int flag;
+    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, ARMCI_GROUP_WORLD.comm, &flag, MPI_STATUS_IGNORE);
 }
 
 /** Determine if a window supports the unified memory model.
-- 
2.43.0


From 91ba0fc288cd48269186e28f8070a91b47835473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 15/26] fix: range check of transfers to the calling process
 itself

---
 src/gmr.c         | 15 +++++++++++++++
 src/gmr.h         |  1 +
 src/onesided.c    |  2 ++
 src/onesided_nb.c |  2 ++
 4 files changed, 20 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index ba2852a..14f501f 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -492,6 +492,21 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
 }
 
 
+/** Check that an access stays within one process' slice of a shared memory region.
+  *
+  * @param[in] mreg Memory region, as returned by gmr_lookup for the same pointer
+  * @param[in] ptr  First address of the access
+  * @param[in] size Number of bytes accessed
+  * @param[in] proc Absolute process id of the process on which the data lives
+  * @return         Non-zero if the access is within the slice
+  */
+int gmr_in_range(gmr_t *mreg, void *ptr, gmr_size_t size, int proc) {
+  const gmr_size_t disp = (gmr_size_t) ((uint8_t*) ptr - (uint8_t*) mreg->slices[proc].base);
+
+  return disp + size <= mreg->slices[proc].size;
+}
+
+
 /** One-sided put operation.  Source buffer must be private.
   *
   * @param[in] mreg   Memory region
diff --git a/src/gmr.h b/src/gmr.h
index 602593b..5d14504 100644
--- a/src/gmr.h
+++ b/src/gmr.h
@@ -43,6 +43,7 @@ gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group);
 void   gmr_destroy(gmr_t *mreg, ARMCI_Group *group);
 int    gmr_destroy_all(void);
 gmr_t *gmr_lookup(void *ptr, int proc);
+int    gmr_in_range(gmr_t *mreg, void *ptr, gmr_size_t size, int proc);
 
 // blocking
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst, MPI_Datatype type, MPI_Op op, int proc);
diff --git a/src/onesided.c b/src/onesided.c
index 490626a..d8be2fd 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,7 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg(gmr_in_range(src_mreg, src, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +163,7 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    ARMCII_Assert_msg(gmr_in_range(dst_mreg, dst, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index c1c96ba..08023c2 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -97,6 +97,7 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      ARMCII_Assert_msg(gmr_in_range(dst_mreg, dst, size, target), "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -136,6 +137,7 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg(gmr_in_range(src_mreg, src, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From 6642eb41de17ef3b62865147522b0b477519ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 16/26] fix: check the remaining allocations for failure

---
 src/buffer.c          | 4 ++++
 src/conflict_tree.c   | 2 ++
 src/gmr.c             | 2 ++
 src/malloc.c          | 2 +-
 src/mutex_hdl_queue.c | 3 +++
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..d3ac891 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -30,6 +30,8 @@ int ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int coun
     void **new_bufs = malloc(count*sizeof(void*));
     int i;
 
+    ARMCII_Assert(new_bufs != NULL || count == 0);
+
     for (i = 0; i < count; i++)
       new_bufs[i] = NULL;
 
@@ -201,6 +203,8 @@ int ARMCII_Buf_prepare_write_vec(void **orig_bufs, void ***new_bufs_ptr, int cou
     void **new_bufs = malloc(count*sizeof(void*));
     int i;
 
+    ARMCII_Assert(new_bufs != NULL || count == 0);
+
     for (i = 0; i < count; i++)
       new_bufs[i] = NULL;
 
diff --git a/src/conflict_tree.c b/src/conflict_tree.c
index 2814860..afd6e70 100644
--- a/src/conflict_tree.c
+++ b/src/conflict_tree.c
@@ -70,6 +70,8 @@ int ctree_insert(ctree_t *root, uint8_t *lo, uint8_t *hi) {
   ctree_t cur;
   ctree_t new_node = (ctree_t) malloc(sizeof(struct ctree_node_s));
 
+  ARMCII_Assert(new_node != NULL);
+
   new_node->lo     = lo;
   new_node->hi     = hi;
   new_node->height = 1;
diff --git a/src/gmr.c b/src/gmr.c
index 14f501f..5ae8def 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -1106,6 +1106,7 @@ void gmr_handle_add_request(armci_hdl_t * handle, MPI_Request req)
     // we nullify the single request to make sure it is not usable.
     handle->batch_size++;
     handle->request_array    = malloc( handle->batch_size * sizeof(MPI_Request) );
+    ARMCII_Assert(handle->request_array != NULL);
     handle->request_array[0] = handle->single_request;
     handle->request_array[1] = req;
     handle->single_request   = MPI_REQUEST_NULL;
@@ -1122,6 +1123,7 @@ void gmr_handle_add_request(armci_hdl_t * handle, MPI_Request req)
     // grow the allocation and append the new one.
     handle->batch_size++;
     handle->request_array  = realloc( handle->request_array , handle->batch_size * sizeof(MPI_Request) );
+    ARMCII_Assert(handle->request_array != NULL);
     handle->request_array[handle->batch_size-1] = req;
 
   }
diff --git a/src/malloc.c b/src/malloc.c
index dd0a639..756e7ac 100644
--- a/src/malloc.c
+++ b/src/malloc.c
@@ -130,7 +130,7 @@ void *PARMCI_Malloc_local(armci_size_t size) {
 
   MPI_Alloc_mem((MPI_Aint) size, MPI_INFO_NULL, &buf);
 
-  if (ARMCII_GLOBAL_STATE.debug_alloc) {
+  if (ARMCII_GLOBAL_STATE.debug_alloc && buf != NULL) {
     ARMCII_Bzero(buf, size);
   }
 
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index c5b9360..040af2b 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -41,9 +41,11 @@ armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup)
 
   hdl->max_count = max_count;
   hdl->windows = malloc(sizeof(MPI_Win)*max_count);
+  ARMCII_Assert(hdl->windows != NULL);
 
   if (my_count > 0) {
     hdl->bases = malloc(sizeof(uint8_t*)*my_count);
+    ARMCII_Assert(hdl->bases != NULL);
   } else {
     hdl->bases = NULL;
   }
@@ -195,6 +197,7 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   ARMCII_Assert(proc >= 0);
 
   buf = malloc(nproc*sizeof(uint8_t));
+  ARMCII_Assert(buf != NULL);
 
   buf[rank] = 0;
 
-- 
2.43.0


From cad94621db7745f5338f452535ac88e7152c7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 17/26] fix: threads of one process may wait for ARMCI mutexes
 at the same time

---
 src/armcix.h          |  1 +
 src/mutex.c           | 11 ++++++--
 src/mutex_hdl_queue.c | 59 ++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/armcix.h b/src/armcix.h
index f4a5ad5..5554511 100644
--- a/src/armcix.h
+++ b/src/armcix.h
@@ -31,6 +31,7 @@ struct armcix_mutex_hdl_s {
   ARMCI_Group grp;
   MPI_Win    *windows;
   uint8_t   **bases;
+  uint8_t    *turns;      /* Mutexes that a thread of this process holds or waits for */
 };
 
 typedef struct armcix_mutex_hdl_s * armcix_mutex_hdl_t;
diff --git a/src/mutex.c b/src/mutex.c
index ef0f533..89eff55 100644
--- a/src/mutex.c
+++ b/src/mutex.c
@@ -126,6 +126,7 @@ int PARMCI_Destroy_mutexes(void) {
   * @param[in] proc  Target process for the lock operation
   */
 void PARMCI_Lock(int mutex, int proc) {
+  armcix_mutex_hdl_t hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -138,7 +139,7 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
   }
 
-  ARMCIX_Lock_hdl(armci_mutex_hdl, mutex, proc);
+  hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -146,6 +147,9 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  /* Must not block other threads of this process while waiting for the mutex */
+  ARMCIX_Lock_hdl(hdl, mutex, proc);
 }
 
 
@@ -165,6 +169,7 @@ void PARMCI_Lock(int mutex, int proc) {
   * @param[in] proc  Target process for the unlock operation
   */
 void PARMCI_Unlock(int mutex, int proc) {
+  armcix_mutex_hdl_t hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -177,7 +182,7 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
   }
 
-  ARMCIX_Unlock_hdl(armci_mutex_hdl, mutex, proc);
+  hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -185,4 +190,6 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  ARMCIX_Unlock_hdl(hdl, mutex, proc);
 }
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index 040af2b..42a2816 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -6,12 +6,56 @@
 #include <stdlib.h>
 #include <mpi.h>
 
+#ifdef HAVE_PTHREADS
+#  include <pthread.h>
+#endif
+
 #include <armci.h>
 #include <armci_internals.h>
 #include <armcix.h>
 #include <debug.h>
 
-#define ARMCI_MUTEX_TAG 100
+/* A process can wait for the same mutex number on several hosts at once (one wait per
+ * thread), so the hand-off message must identify the host as well. */
+#define ARMCI_MUTEX_TAG(mutex_, proc_, nproc_) (100 + (mutex_)*(nproc_) + (proc_))
+
+#ifdef HAVE_PTHREADS
+/* The queue of a mutex has one entry per process, therefore the threads of a process take
+ * turns: a thread owns the local turn from the time it starts to lock until it has unlocked. */
+static pthread_mutex_t turn_mutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t  turn_cond  = PTHREAD_COND_INITIALIZER;
+#endif
+
+static void turn_acquire(armcix_mutex_hdl_t hdl, int turn) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&turn_mutex);
+    ARMCII_Assert(ptrc == 0);
+
+    while (hdl->turns[turn])
+      pthread_cond_wait(&turn_cond, &turn_mutex);
+    hdl->turns[turn] = 1;
+
+    ptrc = pthread_mutex_unlock(&turn_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
+static void turn_release(armcix_mutex_hdl_t hdl, int turn) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&turn_mutex);
+    ARMCII_Assert(ptrc == 0);
+
+    hdl->turns[turn] = 0;
+    pthread_cond_broadcast(&turn_cond);
+
+    ptrc = pthread_mutex_unlock(&turn_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
 
 /* TODO: Make these all no-ops for sequential runs */
 
@@ -43,6 +87,10 @@ armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup)
   hdl->windows = malloc(sizeof(MPI_Win)*max_count);
   ARMCII_Assert(hdl->windows != NULL);
 
+  hdl->turns = malloc(sizeof(uint8_t)*max_count*nproc);
+  ARMCII_Assert(hdl->turns != NULL);
+  ARMCII_Bzero(hdl->turns, max_count*nproc);
+
   if (my_count > 0) {
     hdl->bases = malloc(sizeof(uint8_t*)*my_count);
     ARMCII_Assert(hdl->bases != NULL);
@@ -97,6 +145,7 @@ int ARMCIX_Destroy_mutexes_hdl(armcix_mutex_hdl_t hdl) {
 
   ARMCI_Group_free(&hdl->grp);
   free(hdl->windows);
+  free(hdl->turns);
   free(hdl);
 
   return 0;
@@ -127,6 +176,8 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
 
   buf[rank] = 1;
 
+  turn_acquire(hdl, mutex*nproc + proc);
+
   /* Get all data from the lock_buf, except the byte belonging to
    * me. Set the byte belonging to me to 1. */
   MPI_Win_lock(MPI_LOCK_EXCLUSIVE, proc, 0, hdl->windows[mutex]);
@@ -155,7 +206,7 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   if (already_locked) {
     MPI_Status status;
     ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "waiting for notification [proc = %d, mutex = %d]\n", proc, mutex);
-    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm, &status);
+    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, ARMCI_MUTEX_TAG(mutex, proc, nproc), hdl->grp.comm, &status);
   }
 
   ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "lock acquired [proc = %d, mutex = %d]\n", proc, mutex);
@@ -226,11 +277,13 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
     int p = (rank + i) % nproc;
     if (buf[p] == 1) {
       ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "notifying %d [proc = %d, mutex = %d]\n", p, proc, mutex);
-      MPI_Send(NULL, 0, MPI_BYTE, p, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm);
+      MPI_Send(NULL, 0, MPI_BYTE, p, ARMCI_MUTEX_TAG(mutex, proc, nproc), hdl->grp.comm);
       break;
     }
   }
 
+  turn_release(hdl, mutex*nproc + proc);
+
   ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "lock released [proc = %d, mutex = %d]\n", proc, mutex);
   free(buf);
 }
-- 
2.43.0


From 35de7d422317fd3f13556a0ff42326ff282c076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 18/26] fix: do not join a progress thread that could not be
 created

---
 src/init_finalize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 89574d7..33d5e4c 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -699,6 +699,7 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
             int rc = pthread_create(&ARMCI_Progress_thread, NULL, &progress_function, &progress_active);
             if (rc) {
                 ARMCII_Warning("ARMCI progress thread creation failed (%d).\n", rc);
+                ARMCII_GLOBAL_STATE.progress_thread = 0; /* nothing to join later */
             }
         }
     }
-- 
2.43.0


From 188ae9bdac943beca005faaa0f608f1b587ca026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 19/26] fix: ARMCI_PutS_flag returns zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 0870e17..2dd4e0e 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -649,7 +649,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 4f1d10de22298b5fd52455b5f7514cd8eb379239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 20/26] fix: compute strided displacements without overflowing
 int

The displacement of a block from the start of a strided transfer is a sum of
stride times index.  The strides fit in an int, their multiples need not: with
the IOV strided method, blocks more than 2 GB away from the first one were
transferred to or from the wrong address.
---
 src/strided.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 2dd4e0e..40d9e90 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -2,6 +2,7 @@
  * Copyright (C) 2010. See COPYRIGHT in top-level directory.
  */
 
+#include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -458,15 +459,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      ptrdiff_t disp_src = 0;
+      ptrdiff_t disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (ptrdiff_t) src_stride_ar[i]*idx[i];
+        disp_dst += (ptrdiff_t) dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
@@ -582,12 +583,13 @@ int ARMCII_Iov_iter_next(armcii_iov_iter_t *it, void **src, void **dst) {
 
   // Case 2: Strided transfer
   } else {
-    int i, disp_src = 0, disp_dst = 0;
+    int i;
+    ptrdiff_t disp_src = 0, disp_dst = 0;
 
     // Calculate displacements from base pointers
     for (i = 0; i < it->stride_levels; i++) {
-      disp_src += it->src_stride_ar[i]*it->idx[i];
-      disp_dst += it->dst_stride_ar[i]*it->idx[i];
+      disp_src += (ptrdiff_t) it->src_stride_ar[i]*it->idx[i];
+      disp_dst += (ptrdiff_t) it->dst_stride_ar[i]*it->idx[i];
     }
 
     // Add to the IO Vector
-- 
2.43.0


From 3be2653c164adb32b6b762b67752b6aa428bf69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 21/26] fix: allow I/O vector transfers in shares of 2 GB and
 more

The direct I/O vector method kept the size of the target's share and the
element displacement of each segment in an int.  Valid transfers were refused,
or applied at a truncated displacement.  Segments which an MPI indexed block
type can't describe, on either side, are now transferred one at a time.
---
 src/vector.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index d852da8..e3c8bb6 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -312,7 +312,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -352,8 +353,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
      *
      * indexed_block displacements are 32-bit element offsets.  For a scaled/guarded ACC each
      * origin segment is a separate MPI_Alloc_mem allocation (ARMCII_Buf_prepare_acc_vec) and
-     * can be arbitrarily far from the base, so assert the element offset fits in a 32-bit int
-     * rather than silently truncating it into a wild address. */
+     * can be arbitrarily far from the base, and a window can hold more elements than that.
+     * Segments that can't be described this way are transferred one at a time instead. */
     base_loc_ptr = buf_loc[0];
     MPI_Get_address(buf_loc[0], &base_loc);
     for (i = 0; i < count; i++) {
@@ -362,18 +363,22 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     }
 
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
+      off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
       block_len[i] = elem_count;
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
-      ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+
+      if (off_loc > INT_MAX || off_rem > INT_MAX)
+        return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
+
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)off_rem;
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
-- 
2.43.0


From d7d8b53d4c09eb796ec0e8590d1a8e72f5935f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 22/26] fix: set the parent in armci_msg_bintree for SCOPE_NODE

The tree of a single process has no parent, but the output argument was
left untouched, so that the caller saw whatever it held before.
---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 1953450..503339e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -263,6 +263,7 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
 
   if (scope == SCOPE_NODE) {
     *root  = 0;
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From be757d98dc10f659bc7625ca6e8e0af722785ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 23/26] fix: keep self transfers one-sided when the window
 model is separate

The load/store shortcut for transfers to the calling process accesses the
private copy of the window; without MPI_WIN_UNIFIED, one-sided updates are not
visible there and the stores are not visible to one-sided reads.
---
 src/onesided.c    | 8 ++++----
 src/onesided_nb.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/onesided.c b/src/onesided.c
index d8be2fd..24be77f 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -97,8 +97,8 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   ARMCII_Assert_msg(src_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+  /* Local operation (needs load/store access to be coherent with RMA) */
+  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL && src_mreg->unified) {
     ARMCII_Assert_msg(gmr_in_range(src_mreg, src, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
@@ -161,8 +161,8 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   ARMCII_Assert_msg(dst_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+  /* Local operation (needs load/store access to be coherent with RMA) */
+  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL && dst_mreg->unified) {
     ARMCII_Assert_msg(gmr_in_range(dst_mreg, dst, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 08023c2..91c1ebd 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -95,8 +95,8 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   ARMCII_Assert_msg(dst_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+  /* Local operation (needs load/store access to be coherent with RMA) */
+  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL && dst_mreg->unified) {
       ARMCII_Assert_msg(gmr_in_range(dst_mreg, dst, size, target), "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
@@ -135,8 +135,8 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   ARMCII_Assert_msg(src_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+  /* Local operation (needs load/store access to be coherent with RMA) */
+  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL && src_mreg->unified) {
     ARMCII_Assert_msg(gmr_in_range(src_mreg, src, size, target), "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
-- 
2.43.0


From 831a78007e376deadfb62014435095c8d6139008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 24/26] fix: publish local stores before leaving ARMCI_Barrier

With MPI_WIN_SEPARATE, another process could leave the barrier and read a
region before its owner's MPI_Win_sync made preceding direct stores public.
---
 src/util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.c b/src/util.c
index b944f6d..988f79c 100644
--- a/src/util.c
+++ b/src/util.c
@@ -39,6 +39,7 @@ void ARMCI_Error(const char *msg, int code) {
   */
 void PARMCI_Barrier(void) {
   PARMCI_AllFence();
+  ARMCII_Sync(); /* publish local stores before anybody leaves the barrier */
   MPI_Barrier(ARMCI_GROUP_WORLD.comm);
   ARMCII_Sync();
 }
-- 
2.43.0


From 2238893553ecbbccc7d2ba1dc0940debf5618c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 25/26] fix: publish the zero fill of ARMCI_DEBUG_ALLOC on
 separate windows

---
 src/gmr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index 5ae8def..bfc5ec8 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -313,6 +313,13 @@ gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group) {
     }
   }
 
+  /* The zeros were stored to the private copy of the window: publish them
+   * before anybody can access the region. */
+  if (ARMCII_GLOBAL_STATE.debug_alloc && !(mreg->unified)) {
+    gmr_sync(mreg);
+    MPI_Barrier(group->comm);
+  }
+
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
     int ptrc = pthread_mutex_lock(&gmr_list_mutex);
-- 
2.43.0


From f58887c3eb402e488064e3a5f06111d513a0c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 26/26] fix: provide ARMCI_WaitProc on compilers without weak
 symbol pragmas

---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..62d4a24 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -172,6 +172,11 @@ int ARMCI_Test(armci_hdl_t* hdl) {
   return PARMCI_Test(hdl);
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_WaitAll
 int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
-- 
2.43.0

