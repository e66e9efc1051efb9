From e8c3f15a4e44a1df1cd92d62431a27c646dd3f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 01/13] fix: release the task lock when both tile passes fail
 to start

When the tasks of both passes of a frame could not be allocated, the
worker left the task mutex locked and then locked it again, blocking
itself and every other thread of the decoder.
---
 src/thread_task.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..74eaa2f 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -733,9 +733,8 @@ void *dav1d_worker_task(void *data) {
                             dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
                             f->n_tile_data = 0;
                             pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
                         }
+                        pthread_mutex_unlock(&ttd->lock);
                     }
                 }
                 pthread_mutex_lock(&ttd->lock);
-- 
2.43.0


From 8c5d2152bc8a7518fe4f771a243d317babeaee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 02/13] fix: report the failure to create the tile tasks of a
 frame

---
 src/decode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..439c0e5 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3293,7 +3293,8 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
     // wait until all threads have completed
     if (!res) {
         if (f->c->n_tc > 1) {
-            res = dav1d_task_create_tile_sbrow(f, 0, 1);
+            if (dav1d_task_create_tile_sbrow(f, 0, 1))
+                res = DAV1D_ERR(ENOMEM);
             pthread_mutex_lock(&f->task_thread.ttd->lock);
             pthread_cond_signal(&f->task_thread.ttd->cond);
             if (!res) {
@@ -3303,9 +3304,9 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                     pthread_cond_wait(&f->task_thread.cond,
                                       &f->task_thread.ttd->lock);
                 }
+                res = f->task_thread.retval;
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From 7a3bb9f2eb0ac7056dfb068ebbd357de6fa3be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 03/13] fix: forget the tile state count when its allocation
 fails

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 439c0e5..df44076 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


From e1d86427a8afbbc8efdca5e6ae95afdfc47126d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 04/13] fix: don't use a too small tile task array in the
 second pass

---
 src/thread_task.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thread_task.c b/src/thread_task.c
index 74eaa2f..36fef2a 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -282,6 +282,9 @@ int dav1d_task_create_tile_sbrow(Dav1dFrameContext *const f, const int pass,
             f->task_thread.num_tile_tasks = alloc_num_tasks;
         }
         f->task_thread.tile_tasks[1] = tasks + num_tasks;
+    } else if (num_tasks * 2 > f->task_thread.num_tile_tasks) {
+        // the allocation for the first pass failed
+        return -1;
     }
     tasks += num_tasks * (pass & 1);
 
-- 
2.43.0


From 978e9ef1ed3107b318fa0255787429ddd3684f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 05/13] fix: record the data properties of every failing OBU

---
 src/obu.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 78d652b..ddd1342 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1257,7 +1257,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
     case DAV1D_OBU_SEQ_HDR: {
         Dav1dRef *ref = dav1d_ref_create_using_pool(c->seq_hdr_pool,
                                                     sizeof(Dav1dSequenceHeader));
-        if (!ref) return DAV1D_ERR(ENOMEM);
+        if (!ref) goto oom;
         Dav1dSequenceHeader *seq_hdr = ref->data;
         if ((res = parse_seq_hdr(seq_hdr, &gb, c->strict_std_compliance)) < 0) {
             dav1d_log(c, "Error parsing sequence header\n");
@@ -1314,7 +1314,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
         if (!c->frame_hdr_ref) {
             c->frame_hdr_ref = dav1d_ref_create_using_pool(c->frame_hdr_pool,
                                                            sizeof(Dav1dFrameHeader));
-            if (!c->frame_hdr_ref) return DAV1D_ERR(ENOMEM);
+            if (!c->frame_hdr_ref) goto oom;
         }
 #ifndef NDEBUG
         // ensure that the reference is writable
@@ -1347,7 +1347,8 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             dav1d_log(c, "Frame size %dx%d exceeds limit %u\n", c->frame_hdr->width[1],
                       c->frame_hdr->height, c->frame_size_limit);
             c->frame_hdr = NULL;
-            return DAV1D_ERR(ERANGE);
+            res = DAV1D_ERR(ERANGE);
+            goto fail;
         }
 
         if (type != DAV1D_OBU_FRAME)
@@ -1410,7 +1411,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
         case OBU_META_HDR_CLL: {
             Dav1dRef *ref = dav1d_ref_create(ALLOC_OBU_META,
                                              sizeof(Dav1dContentLightLevel));
-            if (!ref) return DAV1D_ERR(ENOMEM);
+            if (!ref) goto oom;
             Dav1dContentLightLevel *const content_light = ref->data;
 
             content_light->max_content_light_level = dav1d_get_bits(&gb, 16);
@@ -1439,7 +1440,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
         case OBU_META_HDR_MDCV: {
             Dav1dRef *ref = dav1d_ref_create(ALLOC_OBU_META,
                                              sizeof(Dav1dMasteringDisplay));
-            if (!ref) return DAV1D_ERR(ENOMEM);
+            if (!ref) goto oom;
             Dav1dMasteringDisplay *const mastering_display = ref->data;
 
             for (int i = 0; i < 3; i++) {
@@ -1735,4 +1736,10 @@ error:
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
     return DAV1D_ERR(EINVAL);
+
+oom:
+    res = DAV1D_ERR(ENOMEM);
+fail:
+    dav1d_data_props_copy(&c->cached_error_props, &in->m);
+    return res;
 }
-- 
2.43.0


From 529ff6634d425bfe60870c3b29b5f4121feae86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 06/13] fix: release the ITU-T T.35 metadata when its
 allocation fails

---
 src/obu.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index ddd1342..6f99e8a 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1518,7 +1518,11 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
@@ -1531,7 +1535,13 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
 
             Dav1dITUTT35 *const itut_t35_metadata = &c->itut_t35[c->n_itut_t35];
             itut_t35_metadata->payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!itut_t35_metadata->payload) goto error;
+            if (!itut_t35_metadata->payload) {
+                if (!c->n_itut_t35) {
+                    dav1d_ref_dec(&c->itut_t35_ref);
+                    c->itut_t35 = NULL;
+                }
+                goto error;
+            }
 
             itut_t35_metadata->country_code = country_code;
             itut_t35_metadata->country_code_extension_byte = country_code_extension_byte;
-- 
2.43.0


From 66261d3793e0c53091ba85cf9635d59bc16e7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 07/13] fix: drop the pending tile data when flushing

---
 src/lib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 8ced796..23011e3 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -538,6 +538,11 @@ void dav1d_flush(Dav1dContext *const c) {
         dav1d_ref_dec(&c->refs[i].refmvs);
         dav1d_cdf_thread_unref(&c->cdf[i]);
     }
+    for (int i = 0; i < c->n_tile_data; i++)
+        dav1d_data_unref_internal(&c->tile[i].data);
+    c->n_tile_data = 0;
+    c->n_tiles = 0;
+
     c->frame_hdr = NULL;
     c->seq_hdr = NULL;
     dav1d_ref_dec(&c->seq_hdr_ref);
-- 
2.43.0


From 0d538ded7d0df0e63174634d8987005093a2ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 08/13] fix: don't lose a decoding error when a picture becomes
 available with it

With frame threading, submitting a frame first takes the oldest frame out of
the ring.  If the submission itself then failed while that frame was ready for
output, gen_picture() stopped at the picture and dropped the error.
---
 src/lib.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 23011e3..ee98ea4 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -424,8 +424,13 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
+        if (output_picture_ready(c, 0)) {
+            // don't lose the error if a picture became available at the same
+            // time, report it before that picture is returned
+            if (res < 0 && !c->cached_error)
+                c->cached_error = (int)res;
             break;
+        }
         if (res < 0)
             return (int)res;
     }
-- 
2.43.0


From df8964e9f4a9a7d00d3d8a5451f0cb42155ade18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 09/13] fix: don't keep a truncated frame header for later tile
 groups

---
 src/obu.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 6f99e8a..b36caf2 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1363,6 +1363,11 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
         // There's no trailing bit at the end to skip, but we do need
         // to align to the next byte.
         dav1d_bytealign_get_bits(&gb);
+        // Don't keep a truncated frame header around for a later tile group.
+        if (gb.error) {
+            c->frame_hdr = NULL;
+            goto error;
+        }
         // fall-through
     case DAV1D_OBU_TILE_GRP: {
         if (!c->frame_hdr) goto error;
-- 
2.43.0


From 4e6c45d0b9343e3fc3c5ce7ce2eeb899819f6ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 10/13] fix: reject a packet with a size but no data in
 dav1d_send_data

---
 src/lib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index ee98ea4..970a29e 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -446,6 +446,8 @@ int dav1d_send_data(Dav1dContext *const c, Dav1dData *const in)
     if (in->data) {
         validate_input_or_ret(in->sz > 0 && in->sz <= SIZE_MAX / 2, DAV1D_ERR(EINVAL));
         c->drain = 0;
+    } else {
+        validate_input_or_ret(in->sz == 0, DAV1D_ERR(EINVAL));
     }
     if (c->in.data)
         return DAV1D_ERR(EAGAIN);
-- 
2.43.0


From 32eadc39c7f84f6451467262e16640f625f4d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 11/13] fix: tools/ivf: don't divide by zero when a file has no
 frames

ivf_open() divided the duration by the number of frames it counted, so
an IVF file with a header and no complete frame header crashed the tool.
---
 tools/input/ivf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index d1fa05e..51e0c2b 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -124,7 +124,7 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         fps[0] = fps[1] = 0;
     }
     c->timebase = (double)timebase[0] / timebase[1];
-    c->step = duration / *num_frames;
+    c->step = *num_frames ? duration / *num_frames : 0;
 
     fseeko(c->f, 32, SEEK_SET);
     c->last_ts = 0;
-- 
2.43.0


From 6eafc39ffcee48f58351eca4ec61c48ad3a2f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 12/13] fix: tools/input: release the file and probe buffer
 when opening fails

section5_open() left the file open when it met a malformed OBU, and
input_open() leaked the probe buffer when the file could not be opened.
---
 tools/input/input.c    | 1 +
 tools/input/section5.c | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/input/input.c b/tools/input/input.c
index 2dfaa97..c4b4e60 100644
--- a/tools/input/input.c
+++ b/tools/input/input.c
@@ -84,6 +84,7 @@ int input_open(DemuxerContext **const c_out,
         }
         FILE *f = fopen(filename, "rb");
         if (!f) {
+            free(probe_data);
             fprintf(stderr, "Failed to open input file %s: %s\n", filename, strerror(errno));
             return errno ? DAV1D_ERR(errno) : DAV1D_ERR(EIO);
         }
diff --git a/tools/input/section5.c b/tools/input/section5.c
index 99cb761..96913db 100644
--- a/tools/input/section5.c
+++ b/tools/input/section5.c
@@ -110,19 +110,22 @@ static int section5_open(Section5InputContext *const c, const char *const file,
             (*num_frames)++;
         const int has_length_field = byte[0] & 0x2;
         if (!has_length_field)
-            return -1;
+            goto error;
         const int has_extension = byte[0] & 0x4;
         if (has_extension && fread(&byte[1], 1, 1, c->f) < 1)
-            return -1;
+            goto error;
         size_t len;
         const int res = leb128(c->f, &len);
         if (res < 0)
-            return -1;
+            goto error;
         fseeko(c->f, len, SEEK_CUR); // skip packet
     }
     fseeko(c->f, 0, SEEK_SET);
 
     return 0;
+error:
+    fclose(c->f);
+    return -1;
 }
 
 static int section5_read(Section5InputContext *const c, Dav1dData *const data) {
-- 
2.43.0


From bff82c67bfe33264682962670de11b797ecbc172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 13/13] fix: tools/dav1d: release packets skipped for want of a
 sequence header

The next packet overwrote the skipped one, whose buffer was leaked.
---
 tools/dav1d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index eb19a80..60e3429 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -244,6 +244,7 @@ int main(const int argc, char *const *const argv) {
         Dav1dSequenceHeader seq;
         unsigned seq_skip = 0;
         while (dav1d_parse_sequence_header(&seq, data.data, data.sz)) {
+            dav1d_data_unref(&data);
             if ((res = input_read(in, &data)) < 0) {
                 input_close(in);
                 return EXIT_FAILURE;
-- 
2.43.0

