From 5631ff48ff54c8bfad1a536e555cbad28dd8b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 01/90] fix: rotate shim drops or misplaces data when chunks
 fill up or base calls fail

Reads are bounded by the logical size, overwriting in place never starts a
new chunk, a full log evicts its oldest chunk instead of overwriting it,
and failures of the base filesystem are reported with exact byte counts.
---
 src/shim_rotate.c | 165 ++++++++++++++++++++++++++--------------------
 1 file changed, 94 insertions(+), 71 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..061510c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -174,6 +174,7 @@ typedef struct MultipartState {
   evfs_off_t  file_pos;     // Logical position for reads and writes in non-append mode
   ChunkId     active_chunk;
   EvfsFile   *active_chunk_fh;
+  bool        torn_tail;    // A failed write may have left partial data after the end
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   SharedBuffer *buf;
@@ -381,9 +382,15 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static int deactivate_chunk(MultipartState *ms);
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  // Never delete a chunk file that is still open
+  if(ms->active_chunk.chunk == chunk_num.chunk && ms->active_chunk.gen == chunk_num.gen)
+    deactivate_chunk(ms); // This chunk's data is about to be dropped so its close status is irrelevant
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -429,24 +436,29 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
+static int deactivate_chunk(MultipartState *ms) {
+  int status = EVFS_OK;
+
   // Shutdown current active chunk
   if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
+    status = evfs_file_close(ms->active_chunk_fh);
     ms->active_chunk_fh = NULL;
     ms->active_chunk.chunk = -1;
   }
+
+  return status;
 }
 
 
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-  if(ms->active_chunk.chunk == chunk_num.chunk) // Already opened chunk
+  if(ms->active_chunk.chunk == chunk_num.chunk && ms->active_chunk.gen == chunk_num.gen) // Already opened chunk
     return EVFS_OK;
 
   // Shutdown current active chunk
-  deactivate_chunk(ms);
+  int status = deactivate_chunk(ms);
+  if(status != EVFS_OK) return status;
 
   // Open new chunk
   EvfsFile *fh;
@@ -462,7 +474,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
 
   UNLOCK(ms->buf);
 
@@ -476,14 +488,13 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 
 // Method
-static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+// Start a new chunk after the end of the logical file and make it active.
+// It doesn't become the end chunk until data has been written into it.
+static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
   ChunkId next = rs->end_chunk;
+  int status;
 
-  //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
-
-  if(!is_empty) {
+  if(rs->base.total_size > 0) {
     next = next_chunk(rs);
 
     if(next.chunk >= MULTIPART_MAX_CHUNK)
@@ -491,7 +502,8 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      if(status != EVFS_OK) return status;
 
       incr_chunk(rs, &rs->start_chunk);
 
@@ -501,11 +513,12 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
-  //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
+  status = deactivate_chunk(&rs->base);
+  if(status != EVFS_OK) return status;
+
+  //DPRINT("ROT: Append new chunk: %d_%d", next.chunk, next.gen);
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(rs->base.buf);
@@ -520,11 +533,16 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
   // Add new chunk file
   build_chunk_path(base_vfs, &rs->base, next, &joined_r);
 
-  // Open file handle is returned through fh
-  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
+  EvfsFile *fh;
+  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK) {
+    rs->base.active_chunk_fh = fh;
+    rs->base.active_chunk = next;
+  }
+
   return status;
 }
 
@@ -853,16 +871,11 @@ static int rotate__file_close(EvfsFile *fh) {
     RotateState *rs = fil->rot_state;
 
     // Shutdown current active chunk
-    if(rs->base.active_chunk_fh) {
-      evfs_file_close(rs->base.active_chunk_fh);
-      rs->base.active_chunk_fh = NULL;
-      rs->base.active_chunk.chunk = -1;
-    }
+    status = deactivate_chunk(&rs->base);
 
     evfs_free(rs);
 
     fil->rot_state = NULL;
-    status = EVFS_OK;
   }
 
 
@@ -891,27 +904,22 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
 
     // We may have more than one chunk's worth of data to read
     while(size > 0) {
-      ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
-
-      //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
-
-      // If the chunk doesn't exist we are out of chunks to read
-      evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
+      evfs_off_t remain = rs->base.total_size - rs->base.file_pos;
+      if(remain <= 0) // Nothing left to read
         break;
 
-      if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
+      ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
 
-      if(rpos.offset >= chunk_size) // Nothing left to read
-        break;
+      status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
-      evfs_off_t remain_space = chunk_size - rpos.offset;
-      size_t read_size = MIN((evfs_off_t)size, remain_space);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
+      evfs_off_t chunk_remain = rs->cfg.chunk_size - rpos.offset;
+      size_t read_size = MIN(chunk_remain, remain);
+      read_size = MIN(size, read_size);
 
       ptrdiff_t read_chunk = evfs_file_read(rs->base.active_chunk_fh, cbuf, read_size);
       if(read_chunk > 0) {
@@ -920,12 +928,14 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = read_chunk < 0 ? read_chunk : EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    // Report what was delivered before a failure
+    if(status != EVFS_OK && read == 0)
       read = status;
 
   }
@@ -947,7 +957,6 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
-    EvfsFile *new_chunk;
     int status = EVFS_OK;
 
     //DPRINT("ROT: write  %d", size);
@@ -955,32 +964,42 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     // We may have more than one chunk's worth of data to write
     while(size > 0) {
       // Our write position depends on whether we're in append mode
-      ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
-
-      // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-
-        // Set new active chunk
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
-      }
-
-      if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
+      evfs_off_t write_pos = cur_write_pos(&rs->base);
+      bool at_end = write_pos >= rs->base.total_size;
+      ChunkPos wpos;
+
+      if(at_end && rs->base.total_size % rs->cfg.chunk_size == 0) {
+        // All existing chunks are full so we need to create a new one
+        status = append_new_chunk(base_vfs, rs);
+        if(status != EVFS_OK) break;
+
+        write_pos = cur_write_pos(&rs->base); // The start of the file may have been dropped
+        wpos.chunk_num = rs->base.active_chunk;
+        wpos.offset = 0;
+        rs->base.torn_tail = false; // New chunk starts out empty
+
+      } else {
+        wpos = get_chunk_pos(rs, write_pos);
         status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
+
+        // A previous failed write may have left partial data after the end
+        if(at_end && rs->base.torn_tail) {
+          status = evfs_file_truncate(rs->base.active_chunk_fh, wpos.offset);
+          if(status != EVFS_OK) break;
+          rs->base.torn_tail = false;
+        }
       }
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
-      if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
-        return EVFS_ERR_CORRUPTION;
+      if(!at_end) // Don't pass the end until we know if a new chunk is needed
+        free_space = MIN(free_space, rs->base.total_size - write_pos);
 
-      size_t write_size = MIN((evfs_off_t)size, free_space);
+      size_t write_size = MIN((evfs_off_t)MIN(size, INT32_MAX), free_space);
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
       if(wrote_chunk > 0) {
@@ -988,20 +1007,24 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         size -= wrote_chunk;
         incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
-      }
 
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+        if(at_end) { // File has grown
+          rs->base.total_size += wrote_chunk;
+
+          // New chunks are only part of the file once they have data
+          rs->end_chunk = wpos.chunk_num;
+        }
+
+      } else { // Unable to write anything
+        status = wrote_chunk < 0 ? wrote_chunk : EVFS_ERR_IO;
+        if(at_end)
+          rs->base.torn_tail = true;
+        break;
       }
     }
 
-    if(status != EVFS_OK)
+    // Report what was stored before a failure
+    if(status != EVFS_OK && wrote == 0)
       wrote = status;
   }
 
-- 
2.43.0


From c42ec9380ee2ffe916703e7ed4d9e8f8752cdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 02/90] fix: rotate truncate and trim ignore base failures and
 unfinished chunks

Both now work from the logical size, stop at the first failing base call
with a consistent state and remove partial data left by a failed write.
---
 src/shim_rotate.c | 162 ++++++++++++++++++++--------------------------
 1 file changed, 71 insertions(+), 91 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 061510c..984235b 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -384,7 +384,8 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 static int deactivate_chunk(MultipartState *ms);
 
-static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+// Delete a chunk file holding chunk_size bytes of the logical file
+static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
   // Never delete a chunk file that is still open
@@ -402,18 +403,12 @@ static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, ev
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, joined, &info);
-  if(status == EVFS_OK)
-    status = base_vfs->m_delete(base_vfs, joined);
+  int status = base_vfs->m_delete(base_vfs, joined);
 
   UNLOCK(ms->buf);
 
   if(status == EVFS_OK)
-    ms->total_size -= info.size;
-
-  if(chunk_size)
-    *chunk_size = (status == EVFS_OK) ? info.size : 0;
+    ms->total_size -= chunk_size;
 
   return status;
 }
@@ -502,7 +497,7 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, rs->cfg.chunk_size);
       if(status != EVFS_OK) return status;
 
       incr_chunk(rs, &rs->start_chunk);
@@ -547,6 +542,31 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs) {
 }
 
 
+// Remove partial data a failed write may have left after the end of the logical file
+static int clear_torn_tail(Evfs *base_vfs, RotateState *rs) {
+  int status = EVFS_OK;
+
+  if(rs->base.torn_tail) {
+    evfs_off_t end_offset = rs->base.total_size % rs->cfg.chunk_size;
+
+    if(end_offset > 0) {
+      status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
+      if(status == EVFS_OK)
+        status = evfs_file_truncate(rs->base.active_chunk_fh, end_offset);
+
+    } else { // Data is in a new chunk that isn't part of the logical file
+      ChunkId stray = rs->base.total_size > 0 ? next_chunk(rs) : rs->end_chunk;
+      status = evict_chunk(base_vfs, &rs->base, stray, 0);
+    }
+
+    if(status == EVFS_OK)
+      rs->base.torn_tail = false;
+  }
+
+  return status;
+}
+
+
 static ChunkId parse_chunk_name(const char *name) {
   ChunkId id = {-1,0};
 
@@ -595,7 +615,7 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       // errors have happened.
       if(exists && chunk_size == 0) {
         //DPRINT("ROT evict zero length chunk");
-        evict_chunk(base_vfs, &rs->base, id, NULL);
+        evict_chunk(base_vfs, &rs->base, id, 0);
         exists = false;
       }
 
@@ -762,59 +782,36 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   RotateData *shim_data = fil->shim_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
-  int status = EVFS_OK;
-  // We need to round down to the nearest chunk size
-  int trim_chunks = trim_bytes / rs->cfg.chunk_size;
-
-  if(trim_chunks == 0) // No change
+  if(trim_bytes < (evfs_off_t)rs->cfg.chunk_size || rs->base.total_size == 0) // No change
     return 0;
 
-  ChunkId trim_start, trim_end;
-
-  // Determine range of chunks to delete
-  trim_start = rs->start_chunk;
-
-  if(trim_chunks * (evfs_off_t)rs->cfg.chunk_size >= rs->base.total_size) { // Remove all chunks
-    trim_end = rs->end_chunk;
-
-  } else { // Partial trim
-    trim_end = trim_start;
-    trim_end.chunk += trim_chunks - 1;
-    if(trim_end.chunk >= (int)rs->cfg.max_chunks) {
-      trim_end.chunk -= rs->cfg.max_chunks;
-      trim_end.gen = 1 - trim_end.gen;
-    }
-  }
+  // A partial chunk can't stay behind when the remaining ones are removed
+  int status = clear_torn_tail(base_vfs, rs);
+  if(status != EVFS_OK) return status;
 
-  evfs_off_t chunk_size;
   evfs_off_t trimmed_size = 0;
-  ChunkId cur_chunk = trim_start;
 
-  // Delete chunks
-  while(1) {
-    status = evict_chunk(base_vfs, &rs->base, cur_chunk, &chunk_size);
+  // Delete whole chunks that fit in the trim size
+  while(rs->base.total_size > 0 && trim_bytes - trimmed_size >= (evfs_off_t)rs->cfg.chunk_size) {
+    evfs_off_t chunk_size = MIN(rs->base.total_size, (evfs_off_t)rs->cfg.chunk_size);
+
+    status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, chunk_size);
     if(status != EVFS_OK)
       break;
 
     trimmed_size += chunk_size;
 
-    if(cur_chunk.chunk == trim_end.chunk)
-      break;
-
-    incr_chunk(rs, &cur_chunk);
+    if(rs->base.total_size > 0)
+      incr_chunk(rs, &rs->start_chunk);
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
-    rs->base.total_size = 0; // Just to be sure this is correct
+  if(rs->base.total_size == 0) { // All chunks removed
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
-    rs->start_chunk = cur_chunk;
-
     if(rs->base.file_pos > trimmed_size)
       rs->base.file_pos -= trimmed_size;
     else
@@ -1048,53 +1045,39 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
-    // Delete all chunks after truncation point
-
-    // The last chunk may be partially filled so it needs special handling
-    evfs_off_t delete_bytes = rs->base.total_size - size;
-
-    status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-    if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
-
-    evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
-    int delete_chunks;
+    if(size < 0)
+      return EVFS_ERR_BAD_ARG;
 
-    if(delete_bytes >= chunk_size)
-      delete_chunks = 1 + (delete_bytes - chunk_size) / rs->cfg.chunk_size;
-    else
-      delete_chunks = 0;
-
-    // Remove whole chunks
-    while(delete_chunks) {
-      status = evict_chunk(base_vfs, &rs->base, rs->end_chunk, &chunk_size);
-      if(status != EVFS_OK)
-        break;
+    status = clear_torn_tail(base_vfs, rs);
+    if(status != EVFS_OK) return status;
 
-      rs->end_chunk.chunk--;
-      if(rs->end_chunk.chunk < 0) {
-        rs->end_chunk.chunk = rs->cfg.max_chunks - 1;
-        rs->end_chunk.gen = 1 - rs->end_chunk.gen;
-      }
+    // Delete all chunks after truncation point
+    while(rs->base.total_size > size) {
+      // The last chunk may be partially filled
+      evfs_off_t chunk_size = rs->base.total_size % rs->cfg.chunk_size;
+      if(chunk_size == 0)
+        chunk_size = rs->cfg.chunk_size;
 
-      delete_bytes -= chunk_size;
-      delete_chunks--;
-    }
+      evfs_off_t chunk_start = rs->base.total_size - chunk_size;
 
-    // Remove any leftover remainder from new end chunk
-    if(delete_bytes > 0 && status == EVFS_OK) {
-      // Truncate new end chunk
-      status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-      if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
+      if(chunk_start < size) { // Remove leftover remainder from new end chunk
+        status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
+        if(status != EVFS_OK) break;
 
-      chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+        status = evfs_file_truncate(rs->base.active_chunk_fh, size - chunk_start);
+        if(status != EVFS_OK) break;
+        rs->base.total_size = size;
 
-      // We should already have handled full chunks above and only
-      // have a portion less than chunk_size left to truncate.
-      if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
-        return EVFS_ERR_CORRUPTION;
+      } else { // Remove whole chunk
+        status = evict_chunk(base_vfs, &rs->base, rs->end_chunk, chunk_size);
+        if(status != EVFS_OK) break;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+        rs->end_chunk.chunk--;
+        if(rs->end_chunk.chunk < 0) {
+          rs->end_chunk.chunk = rs->cfg.max_chunks - 1;
+          rs->end_chunk.gen = 1 - rs->end_chunk.gen;
+        }
+      }
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1103,11 +1086,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     }
 
     // Adjust position
-    if(rs->base.file_pos > size)
-      rs->base.file_pos = size;
-
-    if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
-      status = EVFS_ERR_CORRUPTION;
+    if(rs->base.file_pos > rs->base.total_size)
+      rs->base.file_pos = rs->base.total_size;
 
   }
 
-- 
2.43.0


From c875e2faee28df7d672bcbeac9aeeb36cf59be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 03/90] fix: rotate open and delete ignore base failures and
 unusable containers

Opening reports failures while scanning, refuses invalid geometry and paths
too long for chunk files, keeps working after a directory change and cleans
up a container it could not create. Deleting reports failures.
---
 src/shim_rotate.c | 162 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 114 insertions(+), 48 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 984235b..9d30393 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -95,6 +95,9 @@ EVFS_CMD_SET_ROTATE_CFG as the operation evfs_vfs_ctrl().
 // Protect against chunks too small and thrashing the filesystem
 #define MULTIPART_MIN_CHUNK_SIZE  32
 
+// Length of the longest name in a container with its separator: "/cNNNNN_G.cnk"
+#define CHUNK_PATH_EXTRA  13
+
 // MSVC
 #ifdef _MSC_VER
 #  define PACKED_BEGIN   __pragma(pack(push, 1))
@@ -228,6 +231,12 @@ typedef struct RotateDir {
 // ******************** Internal rotation API ********************
 
 
+static bool valid_rotate_config(uint32_t chunk_size, uint32_t max_chunks) {
+  return max_chunks >= 2 && max_chunks <= MULTIPART_MAX_CHUNK
+    && chunk_size >= MULTIPART_MIN_CHUNK_SIZE && chunk_size <= INT32_MAX;
+}
+
+
 static evfs_off_t cur_write_pos(MultipartState *ms) {
   evfs_off_t wpos = (ms->flags & EVFS_APPEND) ? ms->total_size : ms->file_pos;
   //DPRINT("ROT write pos %d  append:%c  (%p)", wpos, (ms->flags & EVFS_APPEND) ? 'T' :'f', ms);
@@ -256,7 +265,10 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) {
+    base_vfs->m_delete(base_vfs, path); // Don't leave an unusable container
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -267,7 +279,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
@@ -275,12 +287,25 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
     };
 
     status = evfs_file_write(dat_fh, &geom, sizeof(geom));
+    if(status == sizeof(geom))
+      status = EVFS_OK;
+    else if(status >= 0)
+      status = EVFS_ERR_IO;
 
+  } else if(status >= 0) {
+    status = EVFS_ERR_IO;
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
+  if(status == EVFS_OK)
+    status = close_status;
+
+  if(status != EVFS_OK) { // Don't leave an unusable container
+    base_vfs->m_delete(base_vfs, joined);
+    base_vfs->m_delete(base_vfs, path);
+  }
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  return status;
 }
 
 
@@ -288,22 +313,34 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   // Remove all files in the path directory
   EvfsDir *dh;
   EvfsInfo info;
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
 
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while((status = evfs_dir_read(dh, &info)) == EVFS_OK) {
     // Check for dir dots
-    if(info.name[0] == '.') continue;
+    if(!strcmp(info.name, ".") || !strcmp(info.name, "..")) continue;
 
-    char joined[EVFS_MAX_PATH];
-    StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
-    base_vfs->m_delete(base_vfs, joined);
+    // Leave the geometry until last so this stays a container if we can't finish
+    if(!strcmp(info.name, MULTIPART_GEOMETRY_FILE)) continue;
+
+    status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+
+    if(status != EVFS_OK) break;
   }
 
   evfs_dir_close(dh);
 
+  if(status == EVFS_DONE) {
+    status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+  }
+
   return status;
 }
 
@@ -319,7 +356,8 @@ static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r) != EVFS_OK)
+    return false;
 
   status = base_vfs->m_stat(base_vfs, joined, &info);
   return status == EVFS_OK;
@@ -335,7 +373,7 @@ static int build_chunk_path(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_nu
 }
 
 
-static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+static int get_chunk_size(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -352,10 +390,9 @@ static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num,
   int status = base_vfs->m_stat(base_vfs, joined, &info);
   UNLOCK(ms->buf);
 
-  if(chunk_size)
-    *chunk_size = (status == EVFS_OK) ? info.size : 0;
+  *chunk_size = (status == EVFS_OK) ? info.size : 0;
 
-  return status == EVFS_OK;
+  return status;
 }
 
 
@@ -570,7 +607,9 @@ static int clear_torn_tail(Evfs *base_vfs, RotateState *rs) {
 static ChunkId parse_chunk_name(const char *name) {
   ChunkId id = {-1,0};
 
-  if(strlen(name) == 12) {
+  // Match "cNNNNN_G.cnk"
+  if(strlen(name) == 12 && strspn(&name[1], "0123456789") == 5
+    && name[6] == '_' && (name[7] == '0' || name[7] == '1')) {
     id.chunk = strtol(&name[1], NULL, 10);
     id.gen = name[7] - '0';
 
@@ -603,34 +642,40 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
-    EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
-      ChunkId id = parse_chunk_name(info.name);
-      bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
-
-      // It's possible a 0-length chunk was leftover from a previous
-      // power failure. We'll clean it up now. This should just leave
-      // us with a gap between generations unless more significant
-      // errors have happened.
-      if(exists && chunk_size == 0) {
-        //DPRINT("ROT evict zero length chunk");
-        evict_chunk(base_vfs, &rs->base, id, 0);
-        exists = false;
-      }
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status != EVFS_OK) return status;
 
-      if(exists) {
-        gen_span[id.gen].start  = MIN(gen_span[id.gen].start, id.chunk);
-        gen_span[id.gen].end    = MAX(gen_span[id.gen].end, id.chunk);
+  EvfsInfo info;
+  while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
+    ChunkId id = parse_chunk_name(info.name);
+    if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not one of our chunks
+      continue;
+
+    status = get_chunk_size(base_vfs, &rs->base, id, &chunk_size);
+    if(status != EVFS_OK) break;
+
+    // It's possible a 0-length chunk was leftover from a previous
+    // power failure. We'll clean it up now. This should just leave
+    // us with a gap between generations unless more significant
+    // errors have happened.
+    if(chunk_size == 0) {
+      //DPRINT("ROT evict zero length chunk");
+      status = evict_chunk(base_vfs, &rs->base, id, 0);
+      if(status != EVFS_OK) break;
 
-        rs->base.total_size += chunk_size;
-        //DPRINT("ROT found chunk %d_%d  size:%d (%p)", id.chunk, id.gen, rs->base.total_size,
-        //        &rs->base);
-      }
+    } else {
+      gen_span[id.gen].start  = MIN(gen_span[id.gen].start, id.chunk);
+      gen_span[id.gen].end    = MAX(gen_span[id.gen].end, id.chunk);
 
+      rs->base.total_size += chunk_size;
+      //DPRINT("ROT found chunk %d_%d  size:%d (%p)", id.chunk, id.gen, rs->base.total_size,
+      //        &rs->base);
     }
-    evfs_dir_close(dh);
   }
+  evfs_dir_close(dh);
+
+  if(status != EVFS_DONE) return status;
+  status = EVFS_OK;
 
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
@@ -671,6 +716,16 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   if(!is_rotate_file(base_vfs, path)) return EVFS_ERR_NO_FILE;
 
+  // Container path has to stay valid when the current directory changes
+  char abs_path[EVFS_MAX_PATH];
+  StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
+  int status = evfs_vfs_path_absolute(base_vfs, path, &abs_path_r);
+  if(status != EVFS_OK) return status;
+  path = abs_path;
+
+  // All chunk paths need to fit
+  if(strlen(path) + CHUNK_PATH_EXTRA >= EVFS_MAX_PATH) return EVFS_ERR_TOO_LONG;
+
   // Allocate state to track file rotation
   size_t state_size = sizeof(RotateState) + strlen(path)+1;
   RotateState *rs = evfs_malloc(state_size);
@@ -694,7 +749,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
 
   EvfsFile *dat_fh;
-  int status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
+  status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
   UNLOCK(&shim_data->buf);
 
   if(status != EVFS_OK)
@@ -723,6 +778,11 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
     goto cleanup2;
   }
 
+  if(!valid_rotate_config(geom.chunk_size, geom.max_chunks)) {
+    status = EVFS_ERR_INVALID;
+    goto cleanup2;
+  }
+
   // Copy geometry fields
   rs->cfg.chunk_size = geom.chunk_size;
   rs->cfg.max_chunks = geom.max_chunks;
@@ -749,7 +809,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = discover_chunk_sequence(base_vfs, rs);
 
-  fh->rot_state = rs;
+  if(status == EVFS_OK)
+    fh->rot_state = rs;
 
 cleanup2:
   evfs_file_close(dat_fh);
@@ -764,9 +825,7 @@ cleanup1:
 
 static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
   // Validate the config settings
-  if(cfg->max_chunks < 2
-    || cfg->max_chunks > MULTIPART_MAX_CHUNK
-    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+  if(!valid_rotate_config(cfg->chunk_size, cfg->max_chunks))
     return EVFS_ERR_INVALID;
 
   RotateData *shim_data = (RotateData *)vfs->fs_data; 
@@ -1252,6 +1311,8 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
 
+  fil->rot_state = NULL; // Only set for rotate containers
+
   int status;
 
   // Check if the path exists
@@ -1264,8 +1325,12 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
-      status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+    if(!exists) { // Create new container
+      if(strlen(path) + CHUNK_PATH_EXTRA >= EVFS_MAX_PATH)
+        status = EVFS_ERR_TOO_LONG;
+      else
+        status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+    }
 
     if(status == EVFS_OK)
       status = open_rotate_container(vfs, path, fil, flags);
@@ -1305,8 +1370,9 @@ static int rotate__delete(Evfs *vfs, const char *path) {
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
-    clear_container(base_vfs, path);
-    status = base_vfs->m_delete(base_vfs, path);
+    status = clear_container(base_vfs, path);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, path);
   }
 
   return status;
-- 
2.43.0


From 6150069fdab37bbd0c71aeab94dafde5a26584c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 04/90] fix: names beginning with two dots are not parent
 directory references

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..c11bd99 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From d2480c656b3656b957d67bb5a2e9e3dc4757bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 05/90] fix: jail ignores path conversion failures and keeps
 unnormalised directories

---
 src/shim_jail.c | 99 +++++++++++++++++++++++--------------------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..4cf5613 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status; // An incomplete path could name a different object
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,8 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+
+  return EVFS_OK;
 }
 
 
@@ -276,9 +280,10 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +309,10 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +326,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +342,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +363,10 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +384,10 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -401,9 +412,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return status < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -411,41 +422,23 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
-
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
+  // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
+  //       we have to use our own buffer.
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    range_init(&joined, joined_path, joined_size);
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
 
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
-
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
+  // Overwrite old cur_dir
+  LOCK();
+  strlcpy(shim_data->cur_dir, new_dir, sizeof(shim_data->cur_dir));
+  UNLOCK();
 
   return EVFS_OK;
 }
@@ -506,7 +499,9 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK)
+    return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 320d7478070426fdf1d694c271a3f2679040a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 06/90] fix: a jail's own root directory can be deleted through
 the jail

---
 src/shim_jail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 4cf5613..aca2025 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -328,6 +328,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
   int status = unjail_path(vfs, path, &real_path_r);
 
+  // The jail can't be used without its root directory
+  if(status == EVFS_OK && strlen(shim_data->tmp_path) <= strlen(shim_data->jail_root) + 1)
+    status = EVFS_ERR_AUTH;
+
   if(status == EVFS_OK)
     status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
-- 
2.43.0


From aafecec461d0dc233bd45ac37368718f3b989c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 07/90] fix: basename of an empty path reads before its start

---
 src/evfs_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index c11bd99..bc41899 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,7 +95,7 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end > path ? end - 1 : path;
 
   // Look for rightmost delimiter
   while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
-- 
2.43.0


From af832a07b4d253fa96c4550694680eba964d3d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 08/90] fix: a tar archive whose index is incomplete is mounted
 anyway

---
 include/evfs/tar_iter.h      |  2 +
 include/evfs/tar_iter_rsrc.h |  2 +
 src/tar_fs.c                 | 86 ++++++++++++++++++++++++------------
 src/tar_iter.c               | 36 ++++++++++++---
 src/tar_iter_rsrc.c          | 58 +++++++++++++++++-------
 src/tar_rsrc_fs.c            | 84 +++++++++++++++++++++++------------
 6 files changed, 190 insertions(+), 78 deletions(-)

diff --git a/include/evfs/tar_iter.h b/include/evfs/tar_iter.h
index dade3a0..98201b1 100644
--- a/include/evfs/tar_iter.h
+++ b/include/evfs/tar_iter.h
@@ -13,6 +13,8 @@ typedef struct TarFileIterator {
   evfs_off_t header_offset;  // Offset within tar file
   evfs_off_t file_size;      // Size of current archived file
 
+  int status; // EVFS_OK or the error that stopped the iterator
+
 } TarFileIterator;
 
 #ifdef __cplusplus
diff --git a/include/evfs/tar_iter_rsrc.h b/include/evfs/tar_iter_rsrc.h
index ff651df..c89c04c 100644
--- a/include/evfs/tar_iter_rsrc.h
+++ b/include/evfs/tar_iter_rsrc.h
@@ -15,6 +15,8 @@ typedef struct TarRsrcIterator {
   size_t    header_offset;  // Offset within tar file
   size_t    file_size;      // Size of current archived file
 
+  int status; // EVFS_OK or the error that stopped the iterator
+
 } TarRsrcIterator;
 
 #ifdef __cplusplus
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..1b98a31 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -167,7 +167,7 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
   return err;
 }
 
@@ -179,26 +179,30 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
-static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
+// Only index plain files and directories
+static inline bool tarfs__is_indexed(TarHeader *header) {
+  return header->type_flag == TAR_TYPE_NORMAL_FILE || header->type_flag == TAR_TYPE_DIRECTORY;
+}
 
-  size_t total_path_len = 0;
+
+static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
+  size_t total_path_len = 1;
   int total_files = 0;
   // Scan the tar file to count files and determine total string storage for keys
-  do {
-    // Only index plain files and directories
-    if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
+  for(bool more = tar_iter_begin(tar_it); more; more = tar_iter_next(tar_it)) {
+    if(!tarfs__is_indexed(&tar_it->cur_header)) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += strnlen((char *)tar_it->cur_header.file_name, TAR_FILE_NAME_LEN) +
+                      strnlen((char *)tar_it->cur_header.file_prefix, TAR_FILE_PREFIX_LEN) + 2;
+  }
 
-  } while(tar_iter_next(tar_it));
+  // The index is only usable when the archive was scanned to its end
+  if(tar_it->status != EVFS_OK) return tar_it->status;
 
 
   // Prepare the hash index
-  int err = tarfs__index_hash_init(ht, total_files, total_path_len);
+  int err = tarfs__index_hash_init(ht, total_files + 1, total_path_len);
   if(err != EVFS_OK) return err;
 
 
@@ -206,22 +210,26 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_iter_begin(tar_it);
-
-  do {
-    // Only index plain files and directories
-    if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
+  for(bool more = tar_iter_begin(tar_it); more; more = tar_iter_next(tar_it)) {
+    if(!tarfs__is_indexed(&tar_it->cur_header)) continue;
 
 
     dhKey key;
 
     key.data = keys_r.start;
     key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
+
+    // The header strings aren't terminated when they fill the field
+    StringRange field;
+    if(tar_it->cur_header.file_prefix[0] != '\0') {
+      field.start = (char *)tar_it->cur_header.file_prefix;
+      field.end = field.start + strnlen(field.start, TAR_FILE_PREFIX_LEN);
+      key.length += range_cat_range(&keys_r, &field);
+      key.length += range_cat_char(&keys_r, '/');
+    }
+    field.start = (char *)tar_it->cur_header.file_name;
+    field.end = field.start + strnlen(field.start, TAR_FILE_NAME_LEN);
+    key.length += range_cat_range(&keys_r, &field);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
@@ -234,16 +242,30 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      while(key.length > 0 && ((char *)key.data)[key.length-1] == '/')
+        ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
-
-  } while(tar_iter_next(tar_it));
+    // Lookups are relative to the root without "./"
+    while(key.length > 0) {
+      size_t skip = 0;
+      const char *name = key.data;
+      if(name[0] == '/')
+        skip = 1;
+      else if(name[0] == '.' && (name[1] == '/' || name[1] == '\0'))
+        skip = 1;
+      else
+        break;
+
+      key.data = name + skip;
+      key.length -= skip;
+    }
 
+    if(!dh_insert(&ht->hash_table, key, &entry))
+      return EVFS_ERR_ALLOC;
+  }
 
-  return EVFS_OK;
+  return tar_it->status;
 }
 
 
@@ -562,7 +584,12 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) { // Don't serve an incomplete archive
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(status);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -581,6 +608,7 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..1834b16 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -67,16 +67,36 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
+// The archive ends with zeroed blocks
+static bool tar__end_block(TarHeader *header) {
+  uint8_t *raw_header = (uint8_t *)header;
+  for(size_t i = 0; i < TAR_HEADER_SIZE; i++) {
+    if(raw_header[i] != 0) return false;
+  }
+
+  return true;
+}
+
+
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
 
-  if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
+  ptrdiff_t buf_len = evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE);
+  if(buf_len < 0) {
+    tar_it->status = buf_len;
     goto fail;
+  }
 
-  if(tar__valid_header(header)) {
+  if(buf_len == 0) // No more data
+    goto fail;
+
+  if(buf_len == TAR_HEADER_SIZE && tar__valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
-    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
+    int status = evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL);
+    if(status != EVFS_OK) {
+      tar_it->status = status;
       goto fail;
+    }
 
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
@@ -84,6 +104,10 @@ static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
     return true;
   }
 
+  // Anything other than the end blocks can't be interpreted
+  if(buf_len != TAR_HEADER_SIZE || !tar__end_block(header))
+    tar_it->status = EVFS_ERR_CORRUPTION;
+
 fail:
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -93,7 +117,8 @@ fail:
 
 
 bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
-  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
@@ -105,7 +130,8 @@ bool tar_iter_next(TarFileIterator *tar_it) {
   evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..e038391 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -63,21 +63,53 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
-static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
-  tar_it->header_offset = tar_it->read_pos - tar_it->resource;
+// The archive ends with zeroed blocks
+static bool tar__end_block(TarHeader *header) {
+  uint8_t *raw_header = (uint8_t *)header;
+  for(size_t i = 0; i < TAR_HEADER_SIZE; i++) {
+    if(raw_header[i] != 0) return false;
+  }
 
-  tar_it->cur_header = (TarHeader *)tar_it->read_pos;
-  tar_it->read_pos += TAR_HEADER_SIZE;
-  if(tar__valid_header(tar_it->cur_header)) {
-    // Seek to start of next 512 byte TAR block for file data
-    tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
+  return true;
+}
+
+
+// Parse the header at an offset in the resource. This never looks beyond the end of the resource.
+static bool tar__rsrc_get_header(TarRsrcIterator *tar_it, size_t offset) {
+  tar_it->status = EVFS_OK;
+
+  if(offset >= tar_it->resource_len) // No more data
+    goto fail;
+
+  if(tar_it->resource_len - offset < TAR_HEADER_SIZE) {
+    tar_it->status = EVFS_ERR_CORRUPTION;
+    goto fail;
+  }
+
+  tar_it->header_offset = offset;
+  tar_it->cur_header = (TarHeader *)(tar_it->resource + offset);
 
+  if(tar__valid_header(tar_it->cur_header)) {
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
     tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
-    return true;
+
+    // File data starts in next 512 byte TAR block
+    size_t remaining = tar_it->resource_len - offset;
+    if(tar_it->file_size == 0 ||
+      (remaining > TAR_BLOCK_SIZE && tar_it->file_size <= remaining - TAR_BLOCK_SIZE)) {
+      tar_it->read_pos = tar_it->resource + offset + TAR_BLOCK_SIZE;
+      return true;
+    }
+
+    tar_it->status = EVFS_ERR_CORRUPTION; // Data is incomplete
+
+  } else if(!tar__end_block(tar_it->cur_header)) {
+    // Anything other than the end blocks can't be interpreted
+    tar_it->status = EVFS_ERR_CORRUPTION;
   }
 
+fail:
   tar_it->cur_header = NULL;
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -87,9 +119,7 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
-  tar_it->read_pos = tar_it->resource + offset;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, offset);
 }
 
 
@@ -98,11 +128,7 @@ bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
   size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
-    return false;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, next_header);
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..105d9d7 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -177,7 +177,7 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
   return err;
 }
 
@@ -189,26 +189,30 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
-static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
+// Only index plain files and directories
+static inline bool tarfs__is_indexed(TarHeader *header) {
+  return header->type_flag == TAR_TYPE_NORMAL_FILE || header->type_flag == TAR_TYPE_DIRECTORY;
+}
 
-  size_t total_path_len = 0;
+
+static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
+  size_t total_path_len = 1;
   int total_files = 0;
   // Scan the tar file to count files and determine total string storage for keys
-  do {
-    // Only index plain files and directories
-    if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
+  for(bool more = tar_rsrc_iter_begin(tar_it); more; more = tar_rsrc_iter_next(tar_it)) {
+    if(!tarfs__is_indexed(tar_it->cur_header)) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += strnlen((char *)tar_it->cur_header->file_name, TAR_FILE_NAME_LEN) +
+                      strnlen((char *)tar_it->cur_header->file_prefix, TAR_FILE_PREFIX_LEN) + 2;
+  }
 
-  } while(tar_rsrc_iter_next(tar_it));
+  // The index is only usable when the archive was scanned to its end
+  if(tar_it->status != EVFS_OK) return tar_it->status;
 
 
   // Prepare the hash index
-  int err = tarfs__index_hash_init(ht, total_files, total_path_len);
+  int err = tarfs__index_hash_init(ht, total_files + 1, total_path_len);
   if(err != EVFS_OK) return err;
 
 
@@ -216,22 +220,26 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_rsrc_iter_begin(tar_it);
-
-  do {
-    // Only index plain files and directories
-    if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
+  for(bool more = tar_rsrc_iter_begin(tar_it); more; more = tar_rsrc_iter_next(tar_it)) {
+    if(!tarfs__is_indexed(tar_it->cur_header)) continue;
 
 
     dhKey key;
 
     key.data = keys_r.start;
     key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
+    // The header strings aren't terminated when they fill the field
+    StringRange field;
+    if(tar_it->cur_header->file_prefix[0] != '\0') {
+      field.start = (char *)tar_it->cur_header->file_prefix;
+      field.end = field.start + strnlen(field.start, TAR_FILE_PREFIX_LEN);
+      key.length += range_cat_range(&keys_r, &field);
+      key.length += range_cat_char(&keys_r, '/');
+    }
+    field.start = (char *)tar_it->cur_header->file_name;
+    field.end = field.start + strnlen(field.start, TAR_FILE_NAME_LEN);
+    key.length += range_cat_range(&keys_r, &field);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
@@ -244,16 +252,30 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      while(key.length > 0 && ((char *)key.data)[key.length-1] == '/')
+        ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
-
-  } while(tar_rsrc_iter_next(tar_it));
+    // Lookups are relative to the root without "./"
+    while(key.length > 0) {
+      size_t skip = 0;
+      const char *name = key.data;
+      if(name[0] == '/')
+        skip = 1;
+      else if(name[0] == '.' && (name[1] == '/' || name[1] == '\0'))
+        skip = 1;
+      else
+        break;
+
+      key.data = name + skip;
+      key.length -= skip;
+    }
 
+    if(!dh_insert(&ht->hash_table, key, &entry))
+      return EVFS_ERR_ALLOC;
+  }
 
-  return EVFS_OK;
+  return tar_it->status;
 }
 
 
@@ -586,7 +608,12 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) { // Don't serve an incomplete archive
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(status);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -605,6 +632,7 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
-- 
2.43.0


From 7d3cb0b9321877ac14f985ddc316aaa9bf0144a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 09/90] fix: tar path lookups leave the lock held on bad paths
 and report missing files as random errors

---
 src/tar_fs.c      | 39 ++++++++++++++++++++++-----------------
 src/tar_rsrc_fs.c | 39 ++++++++++++++++++++++-----------------
 2 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 1b98a31..7b7eb17 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -123,8 +123,16 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(!force_malloc)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
 
   return status;
 }
@@ -272,6 +280,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // Root always exists
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -402,16 +416,11 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -434,13 +443,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 105d9d7..b1bf1ee 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -133,8 +133,16 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(!force_malloc)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
 
   return status;
 }
@@ -282,6 +290,12 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // Root always exists
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -423,16 +437,11 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -455,13 +464,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
-- 
2.43.0


From 989b24d8bb8df1f13867be2bc85253663be9d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 10/90] fix: tar reads ignore seek errors and advance past
 bytes not delivered

---
 src/tar_fs.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 7b7eb17..f721161 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -322,11 +322,15 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos,
+                                  EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   return rval;
 }
 
-- 
2.43.0


From 2b4122de9179bd1774a0813cbce28edea88590b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 11/90] fix: tar current directory is kept unnormalised and
 truncated silently

---
 src/tar_fs.c      | 50 ++++++++++++++++-------------------------------
 src/tar_rsrc_fs.c | 50 ++++++++++++++++-------------------------------
 2 files changed, 34 insertions(+), 66 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index f721161..0ba4d9b 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -471,9 +471,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return status < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -481,39 +481,23 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: evfs__vfs_existing_dir() below is going to take the lock (via tarfs__stat) so
+  //       we have to use our own buffer.
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index b1bf1ee..9ac88e3 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -488,9 +488,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return status < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -498,39 +498,23 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: evfs__vfs_existing_dir() below is going to take the lock (via tarfs__stat) so
+  //       we have to use our own buffer.
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From 6f9eef64bd854b6f81f4e4ebc8b4d022f56f56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 12/90] fix: tar opens files that must not exist

---
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 0ba4d9b..de9b4cd 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -416,7 +416,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 9ac88e3..e1c9a04 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -433,7 +433,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From e92251a25ac224d417ec6ebb912b78ed618da334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 13/90] fix: romfs index lookups write past the end of the
 looked up value

---
 src/romfs_common.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..61a838b 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -71,6 +71,13 @@ static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *el
 }
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
+// Value stored in the hash table. It always copies whole words so evfs_off_t can be too small.
+typedef union RomfsIndexEntry {
+  evfs_off_t offset;
+  uintptr_t  padding;
+} RomfsIndexEntry;
+
+
 // Fast path lookups using a hash table
 static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hdr) {
   int status;
@@ -80,8 +87,9 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
   key.data = &path[1]; // Skip leading '/'
   key.length = strlen(key.data);
 
-  alignas(uintptr_t) evfs_off_t entry;
-  if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
+  RomfsIndexEntry index_entry;
+  if(dh_lookup(&fs->fast_index.hash_table, key, &index_entry)) {
+    evfs_off_t entry = index_entry.offset;
     romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
@@ -237,7 +245,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
     .init_buckets = total_files,
-    .value_size   = sizeof(evfs_off_t),
+    .value_size   = sizeof(RomfsIndexEntry),
 
     .destroy_item = destroy_hashed_file,
     .gen_hash     = dh_gen_hash_string,
@@ -356,9 +364,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   evfs_off_t    cur_file_offset = 0;
   int status;
   dhKey key;
-  alignas(uintptr_t) evfs_off_t entry;
+  RomfsIndexEntry entry = {0};
 
-  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, &entry);
+  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, &entry.offset);
   //DPRINT("INDEX, OPEN DIR: %s %d", path, status);
 
   // Prepare key
@@ -410,7 +418,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
         key.length += range_cat_str(keys_r, cur_file.file_name);
         range_cat_char(keys_r,'\0');
 
-        entry = cur_file_offset;
+        entry.offset = cur_file_offset;
         if(!dh_insert(&ht->hash_table, key, &entry))
           return EVFS_ERR;
 
-- 
2.43.0


From 42bfbd5259b9af58f64010e3c0025b01a46d2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 14/90] fix: romfs treats unreadable headers as the end of a
 directory and mounts incomplete indices

---
 include/evfs/romfs_common.h |  2 +-
 src/romfs_common.c          | 90 ++++++++++++++++++++++---------------
 src/romfs_fs.c              | 44 ++++++++++++------
 3 files changed, 85 insertions(+), 51 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..32dadac 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -87,7 +87,7 @@ extern "C" {
 int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 61a838b..7fc40b1 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -25,12 +25,14 @@ static inline int file_header_len(RomfsFileHead *hdr) {
 
 
 // Read Romfs file header from image
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
+  if(buf_len < 0)
+    return buf_len;
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
   int header_len = file_header_len(hdr);
 
@@ -41,33 +43,34 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   }
 
   if(checksum != 0)
-    return false;
+    return EVFS_ERR_CORRUPTION;
 
   hdr->offset       = get_unaligned_be(&hdr->offset);
   hdr->spec_info    = get_unaligned_be(&hdr->spec_info);
   hdr->size         = get_unaligned_be(&hdr->size);
   hdr->header_len   = header_len; // Overwrite checksum
 
-  return true;
+  return EVFS_OK;
 }
 
 // Scan a directory for file from a path
-static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
+static int romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
 
   while(cur_hdr != 0) {
-    if(!romfs_read_file_header(fs, cur_hdr, hdr))
-      break;
+    int status = romfs_read_file_header(fs, cur_hdr, hdr);
+    if(status != EVFS_OK)
+      return status;
 
     if(range_eq(element, hdr->file_name)) {
       hdr->offset = cur_hdr | FILE_MODE(hdr); // Replace with offset of the element
-      return true;
+      return EVFS_OK;
     }
 
     cur_hdr = FILE_OFFSET(hdr);
   }
 
-  return false;
+  return EVFS_ERR_NO_PATH;
 }
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
@@ -90,10 +93,10 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
   RomfsIndexEntry index_entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &index_entry)) {
     evfs_off_t entry = index_entry.offset;
-    romfs_read_file_header(fs, entry, hdr);
+    status = romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
-    hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    status = EVFS_OK;
+    if(status == EVFS_OK)
+      hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -131,20 +134,23 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
   bool end_scan;
 
   if(status != EVFS_OK) { // Assume this is the root path
-    return romfs_read_file_header(fs, dir_pos, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    return romfs_read_file_header(fs, dir_pos, hdr);
   }
 
   while(status == EVFS_OK) {
     int file_type = -1;
     end_scan = false;
 
-    if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
+    status = romfs__find_path_elem(fs, dir_pos, &element, hdr);
+    if(status == EVFS_OK) {
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
       case FILE_TYPE_HARD_LINK:
         dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
+        status = romfs_read_file_header(fs, dir_pos, hdr); // Reparse header
+        if(status != EVFS_OK)
+          return status;
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW LINK: %08X", dir_pos);
         break;
@@ -160,7 +166,7 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
       }
 
     } else { // No match for element
-      return EVFS_ERR_NO_PATH;
+      return status;
     }
 
     status = romfs__scan_path(NULL, &element); // Get next element in path
@@ -219,6 +225,8 @@ static int romfs__validate(Romfs *fs) {
       // Read first chunk again
       chunk_pos = 0;
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      if(buf_len < ROMFS_MIN_HEADER_SIZE)
+        return EVFS_ERR_INVALID;
 
       char *vol_name = (char *)&buf[4];
       //DPRINT("VOLUME: '%s'", vol_name);
@@ -256,7 +264,7 @@ static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
   return err;
 }
 
@@ -274,7 +282,7 @@ static int romfs__get_next_file(Romfs *fs, RomfsFileHead *cur_file, evfs_off_t *
   if(*cur_file_offset == 0)
     return EVFS_DONE;
 
-  return romfs_read_file_header(fs, *cur_file_offset, cur_file) ? EVFS_OK : EVFS_ERR;
+  return romfs_read_file_header(fs, *cur_file_offset, cur_file);
 }
 
 
@@ -298,12 +306,14 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
   if(status == EVFS_OK) {
     // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
+    status = romfs_read_file_header(fs, hdr->spec_info, hdr);
 
     // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
 
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
   }
 
   return status;
@@ -313,13 +323,12 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files,
+                         size_t *total_path_len) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset;
   int status;
 
-  size_t total_path_len = 0;
-
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
   //DPRINT("OPEN DIR: %s %d", path, status);
 
@@ -331,10 +340,10 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
+        *total_path_len += new_prefix_len; // Entry for the directory
 
         char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
+        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
 
         AppendRange sub_path_r;
         range_init(&sub_path_r, sub_path, new_prefix_len+1);
@@ -343,18 +352,19 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
         range_cat_str(&sub_path_r, cur_file.file_name);
 
         //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
+        status = scan_dir_tree(fs, sub_path, new_prefix_len, total_files, total_path_len);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        *total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
       }
 
       status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
   } while(status == EVFS_OK);
 
-  return total_path_len;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -368,6 +378,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, &entry.offset);
   //DPRINT("INDEX, OPEN DIR: %s %d", path, status);
+  if(status < 0) return status;
 
   // Prepare key
   key.data = keys_r->start;
@@ -380,7 +391,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
   range_cat_char(keys_r,'\0');
 
   if(!dh_insert(&ht->hash_table, key, &entry))
-    return EVFS_ERR;
+    return EVFS_ERR_ALLOC;
 
   //DPRINT("## INDEX DIR: '%s' @ %08X", key.data, entry);
 
@@ -403,8 +414,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        status = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
         // Prepare key
@@ -420,7 +432,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         entry.offset = cur_file_offset;
         if(!dh_insert(&ht->hash_table, key, &entry))
-          return EVFS_ERR;
+          return EVFS_ERR_ALLOC;
 
         //DPRINT("## INDEX FIL: %s @ %08X", key.data, entry);
       }
@@ -429,7 +441,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
     }
   } while(status == EVFS_OK);
 
-  return EVFS_OK;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -440,7 +452,9 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
+  status = scan_dir_tree(fs, "", 0, &total_files, &total_path_len);
+  if(status != EVFS_OK) return status;
+
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -454,9 +468,13 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     status = index_dir_tree(fs, "", 0, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
-    fs->lookup_abs_path = romfs__fast_lookup_abs_path;
+    if(status == EVFS_OK)
+      fs->lookup_abs_path = romfs__fast_lookup_abs_path;
   }
 
+  if(status != EVFS_OK)
+    romfs__fast_index_free(ht);
+
   return status;
 }
 
@@ -476,7 +494,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   if(status == EVFS_OK) {
-    romfs__build_index(fs, &fs->fast_index);
+    status = romfs__build_index(fs, &fs->fast_index);
   }
 #endif
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..81e7f7b 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -273,31 +273,42 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   RomfsDir *dir = (RomfsDir *)dh;
   RomfsData *fs_data = (RomfsData *)dir->fs_data;
 
-  int status;
+  int status = EVFS_OK;
   evfs_off_t next_entry;
+  RomfsFileHead hdr; // The iterator only advances when everything could be read
 
+  LOCK();
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
-    next_entry = dir->cur_file.spec_info;
-    dir->is_reset = false;
+    status = romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &hdr);
+    next_entry = hdr.spec_info;
 
     if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
-      next_entry = FILE_OFFSET(&dir->cur_file);
+      if(status == EVFS_OK)
+        status = romfs_read_file_header(&fs_data->romfs, next_entry, &hdr); // Skip "."
+      if(status == EVFS_OK)
+        status = romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&hdr), &hdr); // Skip ".."
+      next_entry = FILE_OFFSET(&hdr);
     }
 
   } else { // Already initialized
-    next_entry = FILE_OFFSET(&dir->cur_file);
+    hdr = dir->cur_file;
+    next_entry = FILE_OFFSET(&hdr);
   }
 
-  if(next_entry > 0) {
-    dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+  if(status == EVFS_OK) {
+    if(next_entry > 0)
+      status = romfs_read_file_header(&fs_data->romfs, next_entry, &hdr);
+    else // Iteration complete
+      status = EVFS_DONE;
+  }
+  UNLOCK();
 
-  } else { // Iteration complete
-    status = EVFS_DONE;
+  if(status >= 0) {
+    if(status == EVFS_OK)
+      dir->cur_file_offset = next_entry;
+    dir->cur_file = hdr;
+    dir->is_reset = false;
   }
 
 
@@ -580,8 +591,13 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
     return status;
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From ff468f1b394d0206261bdba3d88d63ed2ed218ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 15/90] fix: romfs lookups and reads ignore failures and share
 the image without locking

---
 src/romfs_fs.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 81e7f7b..823dcac 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -118,8 +118,16 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+    if(!force_malloc)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
 
   return status;
 }
@@ -190,7 +198,8 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
@@ -351,14 +360,11 @@ static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *
                                     RomfsFileHead *hdr) {
   int status;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
-    FREE_ABS(abs_path);
-  }
+  // We must normalize absolute paths too because the fast index can't handle denormal paths.
+  // The lock is held until FREE_ABS() so that the shared image is only accessed by one thread.
+  MAKE_ABS(path, abs_path);
+  status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+  FREE_ABS(abs_path);
 
   return status;
 }
@@ -381,7 +387,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   // Must be a plain file
   int file_type = FILE_TYPE(&fil->hdr);
-  if(file_type != FILE_TYPE_REGULAR_FILE) {
+  if(status == EVFS_ERR_NO_PATH || (status == EVFS_OK && file_type != FILE_TYPE_REGULAR_FILE)) {
     status = EVFS_ERR_NO_FILE;
   }
 
@@ -612,7 +618,10 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int status = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(status != EVFS_OK)
+    return status;
+
   return evfs_file_read(image, buf, size);
 }
 
-- 
2.43.0


From 096d68cfd0069cfefdf645dfa505a7e6f9d0aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 16/90] fix: romfs current directory is truncated silently and
 kept unnormalised

---
 src/romfs_fs.c | 53 +++++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 823dcac..59f18f1 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -447,9 +447,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return status < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -457,44 +457,23 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+  // Note: evfs__vfs_existing_dir() below is going to take the lock (via romfs__stat) so
+  //       we have to use our own buffer.
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
 
-    evfs_free(joined_path);
-  }
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From 2e0231ca63764c0c5055dc9b7fbd025d2d4ab260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 17/90] fix: romfs opens files that must not exist

---
 src/romfs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 59f18f1..ba1fe3a 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -377,7 +377,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_romfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From f8ec13dad2feb9d331f1c41b5dbe9bc754ed25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 18/90] fix: romfs hard links to files are shown as directories
 and can't be opened

---
 include/evfs/romfs_common.h |  1 +
 src/romfs_common.c          | 23 ++++++++++++++++++++---
 src/romfs_fs.c              | 10 +++++++---
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 32dadac..241f7e6 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -88,6 +88,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
 int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+int romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 7fc40b1..ae70128 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -53,6 +53,20 @@ int romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   return EVFS_OK;
 }
 
+// Replace a hard link header with its destination
+int romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
+  if(FILE_TYPE(hdr) != FILE_TYPE_HARD_LINK)
+    return EVFS_OK;
+
+  uint32_t dest = hdr->spec_info;
+  int status = romfs_read_file_header(fs, dest, hdr);
+  if(status == EVFS_OK)
+    hdr->offset = dest | FILE_MODE(hdr); // Replace with offset of the destination
+
+  return status;
+}
+
+
 // Scan a directory for file from a path
 static int romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
@@ -95,8 +109,10 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
     evfs_off_t entry = index_entry.offset;
     status = romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
-    if(status == EVFS_OK)
+    if(status == EVFS_OK) {
       hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
+      status = romfs_follow_link(fs, hdr);
+    }
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -147,10 +163,11 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
       switch(file_type) {
 
       case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        status = romfs_read_file_header(fs, dir_pos, hdr); // Reparse header
+        status = romfs_follow_link(fs, hdr); // Reparse header
         if(status != EVFS_OK)
           return status;
+        if(FILE_TYPE(hdr) != FILE_TYPE_DIRECTORY) // Link to a file
+          end_scan = true;
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW LINK: %08X", dir_pos);
         break;
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index ba1fe3a..6381b0b 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -311,6 +311,11 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     else // Iteration complete
       status = EVFS_DONE;
   }
+
+  // Links have the type and size of their destination
+  RomfsFileHead dest = hdr;
+  if(status == EVFS_OK)
+    status = romfs_follow_link(&fs_data->romfs, &dest);
   UNLOCK();
 
   if(status >= 0) {
@@ -325,10 +330,9 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   if(status == EVFS_OK) {
     info->name = dir->cur_file.file_name;
-    info->size = dir->cur_file.size;
+    info->size = dest.size;
 
-    int file_type = FILE_TYPE(&dir->cur_file);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&dest) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
-- 
2.43.0


From b72354b0420f81d44af06e807c3d76406a721a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 19/90] fix: tar index overruns its key storage when the first
 scan comes up short

---
 src/tar_fs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index de9b4cd..31b3729 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -218,9 +218,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
+  int indexed_files = 0;
   for(bool more = tar_iter_begin(tar_it); more; more = tar_iter_next(tar_it)) {
     if(!tarfs__is_indexed(&tar_it->cur_header)) continue;
 
+    if(++indexed_files > total_files) // First scan came up short
+      return EVFS_ERR_CORRUPTION;
 
     dhKey key;
 
@@ -273,6 +276,9 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       return EVFS_ERR_ALLOC;
   }
 
+  if(tar_it->status == EVFS_OK && indexed_files < total_files) // This scan came up short
+    return EVFS_ERR_CORRUPTION;
+
   return tar_it->status;
 }
 
-- 
2.43.0


From c4822db27194ce8016b5c07e2d58121ede1cb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 20/90] fix: FAT images on other volumes than the first are
 formatted, mounted and accessed as volume 0

---
 src/fatfs_fs.c    | 16 ++++++++++++++++
 src/fatfs_image.c | 16 +++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..e6e7e05 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -85,6 +85,14 @@ static int translate_error(int err) {
 #define simple_error(e)  ((e) == FR_OK ? EVFS_OK : EVFS_ERR)
 
 
+// Paths without a drive prefix refer to the current FatFs volume
+static inline void select_volume(FatfsData *fs_data) {
+  char drive_path[5];
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", fs_data->pdrv);
+  f_chdrive(drive_path);
+}
+
+
 static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange *root) {
   // Handle DOS style drive paths
   const char *pos = path;
@@ -358,6 +366,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->pdrv = fs_data->pdrv;
   
   FRESULT status;
+  select_volume(fs_data);
   status = f_open(&fil->fil, path, fs_flags);
 
   return translate_error(status);
@@ -369,6 +378,7 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   FRESULT status;
 
+  select_volume(fs_data);
   status = f_stat(path, &fs_data->info);
 
   memset(info, 0, sizeof(*info));
@@ -393,6 +403,7 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_unlink(path);
   return translate_error(status);
 #else
@@ -408,6 +419,7 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_rename(old_path, new_path);
   return translate_error(status);
 #else
@@ -424,6 +436,7 @@ static int fatfs__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(fs_data);
   status = f_mkdir(path);
   return translate_error(status);
 #else
@@ -443,6 +456,7 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   FRESULT status;
 
+  select_volume(fs_data);
   status = f_opendir(&dir->dir, path);
   return translate_error(status);
 
@@ -451,11 +465,13 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
+  select_volume((FatfsData *)vfs->fs_data);
   FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
 }
 
 static int fatfs__set_cur_dir(Evfs *vfs, const char *path) {
+  select_volume((FatfsData *)vfs->fs_data);
   FRESULT status = f_chdir(path);
   return translate_error(status);
 }
diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..00e0981 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -29,7 +29,7 @@ Embedded Virtual Filesystem
 static FatfsImage s_fatfs_image_data[FF_VOLUMES] = {0};
 
 static inline FatfsImage *get_image_data(BYTE pdrv) {
-  return &s_fatfs_image_data[pdrv];
+  return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
 }
 
 
@@ -69,10 +69,10 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
       evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
 
 
-      char drive_path[3];
+      char drive_path[5];
       char buf[FF_MAX_SS*4];
 
-      snprintf(drive_path, 2, "%hhu", pdrv);
+      snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -103,6 +103,7 @@ Returns:
 int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img_path)) return EVFS_ERR_BAD_ARG;
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
 
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
@@ -110,8 +111,8 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
     return status;
 
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  char drive_path[5];
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -133,9 +134,10 @@ Args:
 */
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return;
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  char drive_path[5];
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
-- 
2.43.0


From 433936e28e64c7ecf5198685e71c19cfd0a01d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 21/90] fix: FAT image access ignores seek errors and uses
 image files that failed to open

---
 src/fatfs_image.c | 58 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 00e0981..9af7ded 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -58,16 +58,29 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+
+    if(status == EVFS_OK) {
+      char force_data[] = "\0";
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == sizeof(char))
+        status = EVFS_OK;
+      else if(status >= 0)
+        status = EVFS_ERR_FS_FULL;
+    }
+
+    int close_status = evfs_file_close(img->fh);
+    img->fh = NULL;
+    if(status == EVFS_OK)
+      status = close_status;
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
-    if(status > 0) {
+    if(status == EVFS_OK) {
 #if FF_FS_READONLY == 0
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+    }
 
+    if(status == EVFS_OK) {
 
       char drive_path[5];
       char buf[FF_MAX_SS*4];
@@ -76,12 +89,18 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
+
+      close_status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = close_status;
 #else
       status = EVFS_ERR_NO_SUPPORT;
 #endif
     }
 
-    evfs_file_close(img->fh);
+    // Don't leave an unusable image that looks like an existing one
+    if(status != EVFS_OK)
+      evfs_delete(img_path);
   }
 
   img->fh = NULL;
@@ -117,8 +136,11 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    f_unmount(drive_path);
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -140,7 +162,9 @@ void fatfs_unmount_image(uint8_t pdrv) {
   snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
   f_unmount(drive_path);
 
-  evfs_file_close(img->fh);
+  if(img->fh)
+    evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
@@ -152,18 +176,21 @@ void fatfs_unmount_image(uint8_t pdrv) {
 
 DSTATUS disk_initialize(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
 }
 
 DSTATUS disk_status(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
 }
 
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(!img || !img->fh) return RES_NOTRDY;
+
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -172,7 +199,10 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(!img || !img->fh) return RES_NOTRDY;
+
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -183,6 +213,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
   FatfsImage *img = get_image_data(pdrv);
   if(!img)
     return RES_PARERR;
+  if(!img->fh)
+    return RES_NOTRDY;
 
   switch(cmd) {
   case CTRL_SYNC:         // Complete pending write process (needed at FF_FS_READONLY == 0)
-- 
2.43.0


From a7b5269821f479408fb2e29b3a6bd5fd54e954f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 22/90] fix: fatfs truncate drops the last byte and errors on
 close and listings are lost

---
 src/fatfs_fs.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e6e7e05..5e044d0 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -82,9 +82,6 @@ static int translate_error(int err) {
   }
 }
 
-#define simple_error(e)  ((e) == FR_OK ? EVFS_OK : EVFS_ERR)
-
-
 // Paths without a drive prefix refer to the current FatFs volume
 static inline void select_volume(FatfsData *fs_data) {
   char drive_path[5];
@@ -120,8 +117,7 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  return translate_error(f_close(&fil->fil));
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
@@ -164,12 +160,14 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  if(ASSERT(size >= 0, "Invalid size")) return EVFS_ERR_BAD_ARG;
+
   evfs_off_t cur_pos = f_tell(&fil->fil);
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
@@ -179,7 +177,9 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
     status = f_truncate(&fil->fil);
 
   // Restore original position
-  f_lseek(&fil->fil, cur_pos);
+  FRESULT seek_status = f_lseek(&fil->fil, cur_pos);
+  if(status == FR_OK)
+    status = seek_status;
 
   return translate_error(status);
 #else
@@ -190,7 +190,7 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 static int fatfs__file_sync(EvfsFile *fh) {
 #if FF_FS_READONLY == 0
   FatfsFile *fil = (FatfsFile *)fh;
-  return simple_error(f_sync(&fil->fil));
+  return translate_error(f_sync(&fil->fil));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
 #endif
@@ -262,7 +262,7 @@ static EvfsFileMethods s_fatfs_methods = {
 
 static int fatfs__dir_close(EvfsDir *dh) {
   FatfsDir *dir = (FatfsDir *)dh;
-  return simple_error(f_closedir(&dir->dir));
+  return translate_error(f_closedir(&dir->dir));
 }
 
 /*
@@ -290,7 +290,10 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
-  if(status == FR_OK && dir->info.fname[0] != '\0') {
+  if(status != FR_OK)
+    return translate_error(status);
+
+  if(dir->info.fname[0] != '\0') {
     info->name = dir->info.fname;
     info->size = dir->info.fsize;
 
-- 
2.43.0


From 83918af612497a83e20abab847588792a599a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 23/90] fix: a filesystem set read-only still creates files
 that must not exist

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 5e044d0..7e4cc75 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -353,7 +353,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..0238ef2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -310,7 +310,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..bd8e1d7 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -282,7 +282,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
-- 
2.43.0


From b8283eda54e583d2015b2f4597e85e2d2be521cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 24/90] fix: a refused fatfs truncate moves the file position

---
 src/fatfs_fs.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 7e4cc75..17db0f3 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -169,14 +169,13 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
   if(size > file_size)
     size = file_size;
 
-  if(cur_pos > size)
-    cur_pos = size;
-
   FRESULT status = f_lseek(&fil->fil, size);
   if(status == FR_OK)
     status = f_truncate(&fil->fil);
 
   // Restore original position
+  if(status == FR_OK && cur_pos > size)
+    cur_pos = size;
   FRESULT seek_status = f_lseek(&fil->fil, cur_pos);
   if(status == FR_OK)
     status = seek_status;
-- 
2.43.0


From 2a8263050f3899f0a6456b0b05840b35357d008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 25/90] fix: fatfs can't stat the root directory

---
 src/fatfs_fs.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 17db0f3..823636c 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -383,6 +383,17 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   select_volume(fs_data);
   status = f_stat(path, &fs_data->info);
 
+  if(status == FR_INVALID_NAME) { // FatFs has no information for the root directory
+    DIR dir;
+    if(f_opendir(&dir, path) == FR_OK) {
+      f_closedir(&dir);
+      memset(&fs_data->info, 0, sizeof(fs_data->info));
+      fs_data->info.fname[0] = '/';
+      fs_data->info.fattrib = AM_DIR;
+      status = FR_OK;
+    }
+  }
+
   memset(info, 0, sizeof(*info));
 
   if(status == FR_OK) {
-- 
2.43.0


From cf43ba2be34e3736e874fd3d27c99bc4299a06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 26/90] fix: fatfs moves a directory below itself and loses it

---
 src/fatfs_fs.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 823636c..d359ad5 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -425,6 +425,58 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 }
 
 
+#if FF_FS_READONLY == 0
+// FatFs doesn't prevent a directory from being moved below itself
+static int check_dir_move(const char *old_path, const char *new_path) {
+  DIR dir;
+  if(f_opendir(&dir, old_path) != FR_OK) // Nothing to check when this isn't a directory
+    return EVFS_OK;
+
+  FATFS *fs = dir.obj.fs;
+  DWORD old_clust = dir.obj.sclust;
+  f_closedir(&dir);
+
+  // Get the directory that will contain the new name
+  if(isdigit((unsigned char)new_path[0]) && new_path[1] == ':')
+    new_path += 2;
+
+  size_t len = strlen(new_path);
+  while(len > 0 && strchr(EVFS_PATH_SEPS, new_path[len-1])) len--;
+  while(len > 0 && !strchr(EVFS_PATH_SEPS, new_path[len-1])) len--;
+
+  char *parent = evfs_malloc(len + 2);
+  if(MEM_CHECK(parent)) return EVFS_ERR_ALLOC;
+  memcpy(parent, new_path, len);
+  strcpy(&parent[len], ".");
+
+  // Walk up to the root from there
+  DWORD cur_dir = fs->cdir;
+  int status = EVFS_OK;
+  FRESULT err = f_opendir(&dir, parent);
+  evfs_free(parent);
+
+  while(err == FR_OK && dir.obj.sclust != 0) {
+    fs->cdir = dir.obj.sclust;
+    f_closedir(&dir);
+
+    if(fs->cdir == old_clust) {
+      status = EVFS_ERR_BAD_ARG;
+      break;
+    }
+
+    err = f_opendir(&dir, "..");
+  }
+
+  fs->cdir = cur_dir;
+
+  if(err != FR_OK && err != FR_NO_PATH && err != FR_NO_FILE)
+    status = translate_error(err);
+
+  return status;
+}
+#endif
+
+
 static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 #if FF_FS_READONLY == 0
   FRESULT status;
@@ -433,6 +485,9 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   select_volume(fs_data);
+  int move_status = check_dir_move(old_path, new_path);
+  if(move_status != EVFS_OK) return move_status;
+
   status = f_rename(old_path, new_path);
   return translate_error(status);
 #else
-- 
2.43.0


From aef08cac987f41091f1731db75454a5b1913fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 27/90] fix: a FAT image is formatted without a partition when
 its size can't be read

---
 src/fatfs_image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 9af7ded..67fab91 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -224,7 +224,9 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
   case GET_SECTOR_COUNT:  // Get media size (needed at FF_USE_MKFS == 1)
     {
       LBA_t *sectors = (LBA_t *)buff;
-      *sectors = evfs_file_size(img->fh) / FF_MAX_SS;
+      evfs_off_t img_size = evfs_file_size(img->fh);
+      if(img_size < 0) return RES_ERROR;
+      *sectors = img_size / FF_MAX_SS;
       return RES_OK;
     }
     break;
-- 
2.43.0


From 72aadc66e0ccb80a8cff0512c846e293aee40785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 28/90] fix: a failed directory extension in FatFs leaves stale
 data linked into the directory

---
 libraries/fatfs/source/ff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/fatfs/source/ff.c b/libraries/fatfs/source/ff.c
index cbdf685..7af2a20 100644
--- a/libraries/fatfs/source/ff.c
+++ b/libraries/fatfs/source/ff.c
@@ -1742,11 +1742,13 @@ static FRESULT dir_next (	/* FR_OK(0):succeeded, FR_NO_FILE:End of table, FR_DEN
 					if (!stretch) {								/* If no stretch, report EOT */
 						dp->sect = 0; return FR_NO_FILE;
 					}
-					clst = create_chain(&dp->obj, dp->clust);	/* Allocate a cluster */
+					/* The cluster is only linked once it is clean, or a failure leaves stale data in the directory */
+					clst = create_chain(&dp->obj, (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? dp->clust : 0);	/* Allocate a cluster */
 					if (clst == 0) return FR_DENIED;			/* No free cluster */
 					if (clst == 1) return FR_INT_ERR;			/* Internal error */
 					if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
 					if (dir_clear(fs, clst) != FR_OK) return FR_DISK_ERR;	/* Clean up the stretched table */
+					if (!(FF_FS_EXFAT && fs->fs_type == FS_EXFAT) && put_fat(fs, dp->clust, clst) != FR_OK) return FR_DISK_ERR;	/* Link it */
 					if (FF_FS_EXFAT) dp->obj.stat |= 4;			/* exFAT: The directory has been stretched */
 #else
 					if (!stretch) dp->sect = 0;					/* (this line is to suppress compiler warning) */
-- 
2.43.0


From fdd9c8052e8b5845bdffe7770eb4a11fc91d5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 29/90] fix: stdio loses the reason an operation failed

---
 src/stdio_fs.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index bd8e1d7..5fd9462 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -80,10 +80,21 @@ static int translate_error(int err) {
     default:           return EVFS_ERR; break;
   }
 }
+
+// Error code for a host call that just failed
+static inline int last_error(void) {
+  return errno != 0 ? translate_error(errno) : EVFS_ERR;
+}
+#else
+# define last_error()  EVFS_ERR
 #endif
 
 
-#define simple_error(e)  ((e) == 0 ? EVFS_OK : EVFS_ERR)
+#ifdef EVFS_USE_STDIO_POSIX
+# define simple_error(e)  ((e) == 0 ? EVFS_OK : last_error())
+#else
+# define simple_error(e)  ((e) == 0 ? EVFS_OK : EVFS_ERR)
+#endif
 
 
 
@@ -387,11 +398,7 @@ static int stdio__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  int err = simple_error(mkdir(path, S_IRWXU));
-  if(err == EVFS_OK)
-    return err;
-
-  return translate_error(errno);
+  return simple_error(mkdir(path, S_IRWXU));
 }
 
 static int stdio__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
@@ -403,7 +410,7 @@ static int stdio__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   dir->dp = opendir(path);
 
-  return dir->dp ? EVFS_OK : EVFS_ERR;
+  return dir->dp ? EVFS_OK : last_error();
 }
 
 
-- 
2.43.0


From 9945f72764c2acddf985184f61f9f6e07ca52f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 30/90] fix: stdio read and write errors are not reported

---
 src/stdio_fs.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 5fd9462..b88d370 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -115,7 +115,12 @@ static int stdio__file_close(EvfsFile *fh) {
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+
+  clearerr(fil->fp);
+  size_t count = fread(buf, 1, size, fil->fp);
+  if(count == 0 && ferror(fil->fp)) return last_error();
+
+  return (ptrdiff_t)count;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -124,8 +129,10 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t count = fwrite(buf, 1, size, fil->fp);
+  if(count == 0 && size > 0) return last_error();
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)count;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
-- 
2.43.0


From 85fdc1a424d9f611515d1b05eb94a8302e6c8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 31/90] fix: stdio ignores the failure to write out data on
 close

---
 src/stdio_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b88d370..2bfbcc8 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -108,9 +108,9 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int status = simple_error(fclose(fil->fp));
   fil->fp = NULL;
-  return EVFS_OK;
+  return status;
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From 32c1c32f9dfbd83de1729adb10f23c4dcb41e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 32/90] fix: stdio seeks past the end for EVFS_SEEK_REV

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 2bfbcc8..a0ba9ed 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -182,7 +182,7 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From 0f3707936119c00575f8eb3bf121781bb9302c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 33/90] fix: stdio reports size 0 when the size can't be
 determined

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index a0ba9ed..e451895 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -160,7 +160,7 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
   struct stat s;
 
   if(fstat(fileno(fil->fp), &s) != 0)
-    return 0;
+    return last_error();
 
   return s.st_size;
 #else
-- 
2.43.0


From 43c4d18e0e7011c2109921313d29f31e40c0c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 34/90] fix: stdio truncate disregards buffered data

---
 src/stdio_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index e451895..fcdb229 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -142,6 +142,9 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Buffered data belongs to the old content
+  if(fflush(fil->fp) != 0) return last_error();
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 6a16ef8de8f5509ef68edfa5cc8bc1c1b3a1d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 35/90] fix: stdio reports a failed listing as complete

---
 src/stdio_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index fcdb229..25cf90a 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -237,6 +237,7 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   struct dirent *posix_entry;
 
+  errno = 0; // readdir() only changes this on error
   posix_entry = readdir(dir->dp);
 
   // Skip over dir dots if configured
@@ -256,6 +257,8 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(!posix_entry && errno != 0) return last_error();
+
   return posix_entry ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From c5baa7354bfb95db1280aa7cc998416ac2e5cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 36/90] fix: stdio lists directories as files on hosts without
 d_type

---
 src/stdio_fs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 25cf90a..8fbbb1a 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -34,6 +34,7 @@ Embedded Virtual Filesystem
 #ifdef EVFS_USE_STDIO_POSIX
 # include <sys/stat.h>
 # include <unistd.h>
+# include <fcntl.h>
 # include <dirent.h>
 # include <errno.h>
 #endif
@@ -253,6 +254,13 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = posix_entry->d_name;
     if(posix_entry->d_type == DT_DIR)
        info->type |= EVFS_FILE_DIR;
+    else if(posix_entry->d_type == DT_UNKNOWN) { // Not provided by all filesystems
+      struct stat s;
+      if(fstatat(dirfd(dir->dp), posix_entry->d_name, &s, AT_SYMLINK_NOFOLLOW) != 0)
+        return last_error();
+      if(S_ISDIR(s.st_mode))
+        info->type |= EVFS_FILE_DIR;
+    }
   } else {
     info->name = NULL;
   }
-- 
2.43.0


From 10358870432edc382506faf2c013871b3ab6f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 37/90] fix: stdio truncates existing files opened with
 EVFS_OPEN_OR_NEW

---
 src/stdio_fs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 8fbbb1a..51207e6 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -297,6 +297,7 @@ static EvfsDirMethods s_stdio_dir_methods = {
 
   "r"   EVFS_READ
   "r+"  EVFS_READ | EVFS_WRITE
+  "r+"  EVFS_WRITE | EVFS_OPEN_OR_NEW
   "w"   EVFS_WRITE
   "w"   EVFS_OVERWRITE
   "w+"  EVFS_OVERWRITE | EVFS_WRITE | EVFS_READ
@@ -323,12 +324,12 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   if(flags & EVFS_APPEND)
     mode[mode_pos++] = 'a';
-  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)))
+  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & (EVFS_READ | EVFS_OPEN_OR_NEW))))
     mode[mode_pos++] = 'w';
   else // Default to reading
     mode[mode_pos++] = 'r';
 
-  if((flags & EVFS_WRITE) && (flags & EVFS_READ))
+  if((flags & EVFS_WRITE) && ((flags & EVFS_READ) || mode[0] == 'r'))
     mode[mode_pos++] = '+';
 
   mode[mode_pos++] = 'b'; // Always use binary mode
-- 
2.43.0


From 799949df18f5a8d41be23a78c9ceaec9c7936fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 38/90] fix: stdio opens existing files for EVFS_APPEND with
 EVFS_NO_EXIST

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 51207e6..6c465af 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -335,7 +335,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   mode[mode_pos++] = 'b'; // Always use binary mode
 
 #if(__STDC_VERSION__ >= 201112L)
-  if(mode[0] == 'w' && (flags & EVFS_NO_EXIST))
+  if(mode[0] != 'r' && (flags & EVFS_NO_EXIST))
     mode[mode_pos++] = 'x';
 #else
 #  warning "C11 is needed to support EVFS_NO_EXIST for evfs_stdio driver"
-- 
2.43.0


From acc407b6376ed76b9bcaa49e8e60244ced00fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 39/90] fix: stdio loses written data when a read follows a
 write

---
 src/stdio_fs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 6c465af..4416a62 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -49,6 +49,8 @@ typedef struct StdioFile_s {
   EvfsFile base;
   StdioData *fs_data;
   FILE *fp;
+  bool reading; // Last transfer was a read
+  bool writing; // Last transfer was a write
 } StdioFile;
 
 
@@ -117,6 +119,11 @@ static int stdio__file_close(EvfsFile *fh) {
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
 
+  // The C library needs a flush when changing from writing to reading
+  if(fil->writing && fflush(fil->fp) != 0) return last_error();
+  fil->writing = false;
+  fil->reading = true;
+
   clearerr(fil->fp);
   size_t count = fread(buf, 1, size, fil->fp);
   if(count == 0 && ferror(fil->fp)) return last_error();
@@ -130,6 +137,11 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // The C library needs a seek when changing from reading to writing
+  if(fil->reading && fseek(fil->fp, 0, SEEK_CUR) != 0) return last_error();
+  fil->reading = false;
+  fil->writing = true;
+
   size_t count = fwrite(buf, 1, size, fil->fp);
   if(count == 0 && size > 0) return last_error();
 
-- 
2.43.0


From da6ad52c814862e6498b441b8671116232068bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 40/90] fix: stdio reports a file that can't be created as
 missing

---
 src/stdio_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 4416a62..1a7332d 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -364,6 +364,8 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
       if(fil->fp)
         fclose(fil->fp);
 #ifdef EVFS_USE_STDIO_POSIX
+      else
+        return last_error();
     }
 #endif
   }
-- 
2.43.0


From 49080cf5844c8418b4a8126a836e0212eb2134bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 41/90] fix: littlefs leaves its path buffer locked or leaked
 when a path is invalid

---
 src/littlefs_fs.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 0238ef2..44da1e5 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -132,9 +132,20 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return status;
+  }
+
+  // Nothing is returned to the caller so the buffer has to be released here
+#ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
 
+  evfs_free(abs_path);
   return status;
 }
 
-- 
2.43.0


From 6c6011b1600e6850a80f051a83257d1af87a6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 42/90] fix: littlefs does not create files opened with
 EVFS_NO_EXIST

---
 src/littlefs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 44da1e5..14a7451 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -329,7 +329,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   if(flags & EVFS_READ)        lfs_flags |= LFS_O_RDONLY; 
   if(flags & EVFS_WRITE)       lfs_flags |= LFS_O_WRONLY;
   if(flags & EVFS_OPEN_OR_NEW) lfs_flags |= LFS_O_CREAT;
-  if(flags & EVFS_NO_EXIST)    lfs_flags |= LFS_O_EXCL;
+  if(flags & EVFS_NO_EXIST)    lfs_flags |= (LFS_O_EXCL | LFS_O_CREAT);
   if(flags & EVFS_OVERWRITE)   lfs_flags |= (LFS_O_TRUNC | LFS_O_CREAT);
   if(flags & EVFS_APPEND)      lfs_flags |= LFS_O_APPEND;
 
-- 
2.43.0


From 536430e61b0f6e83f86c9b0b2447fe3eabac51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 43/90] fix: littlefs ignores a failure to close a file

---
 src/littlefs_fs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 14a7451..3d52ab7 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -174,8 +174,7 @@ static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int littlefs__file_close(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
-  lfs_file_close(fil->lfs, &fil->fil);
-  return EVFS_OK;
+  return simple_error(lfs_file_close(fil->lfs, &fil->fil));
 }
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From cbc5cc10048927a0356e53a8074cddef3e40912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 44/90] fix: littlefs loses the reason an operation failed

---
 src/littlefs_fs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 3d52ab7..9f53a25 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -97,7 +97,10 @@ static ptrdiff_t translate_error(int err) {
   }
 }
 
-#define simple_error(e)  ((e) >= LFS_ERR_OK ? EVFS_OK : EVFS_ERR)
+// Convert a result with no meaningful positive values
+static inline int simple_error(int err) {
+  return err >= LFS_ERR_OK ? EVFS_OK : (int)translate_error(err);
+}
 
 
 // Helper to convert relative paths into absolute for the lfs API
-- 
2.43.0


From 188b7f7a25c2705e1ee4f6706dc09bc8a757f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 45/90] fix: littlefs reports an error while listing as the end
 of the directory

---
 src/littlefs_fs.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9f53a25..af1f48d 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -275,8 +275,8 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status = lfs_dir_read(dir->fs_data->lfs, &dir->dir, &dir->info);
 
   // Skip over dir dots if configured
-  if(status >= 0 && fs_data->cfg_no_dir_dots) {
-    while(status >= 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
+  if(status > 0 && fs_data->cfg_no_dir_dots) {
+    while(status > 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
       status = lfs_dir_read(dir->fs_data->lfs, &dir->dir, &dir->info);
     }
   }
@@ -284,7 +284,7 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
-  if(status >= 0) {
+  if(status > 0) {
     info->name = dir->info.name;
     info->size = dir->info.size;
 
@@ -294,6 +294,9 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status < 0)
+    return translate_error(status);
+
   return status > 0 ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From c49fb4edf97f14ea76c8a9936d5d4e6aa15969f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 46/90] fix: littlefs seeks forward for EVFS_SEEK_REV

---
 src/littlefs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index af1f48d..9c997d8 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -223,7 +223,7 @@ static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir orig
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = LFS_SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = LFS_SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From 8892f796b6b70a5f72c5015b9cf94cf0b2687d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 47/90] fix: littlefs reports a failed size or position query
 as zero

---
 src/littlefs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9c997d8..9970e74 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -213,7 +213,7 @@ static int littlefs__file_sync(EvfsFile *fh) {
 static evfs_off_t littlefs__file_size(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
   lfs_soff_t size = lfs_file_size(fil->lfs, &fil->fil);
-  return size >= 0 ? size : 0;
+  return size >= 0 ? size : translate_error(size);
 }
 
 static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
@@ -235,7 +235,7 @@ static evfs_off_t littlefs__file_tell(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
 
   lfs_soff_t pos = lfs_file_tell(fil->lfs, &fil->fil);
-  return pos >= 0 ? pos : 0;
+  return pos >= 0 ? pos : translate_error(pos);
 }
 
 static bool littlefs__file_eof(EvfsFile *fh) {
-- 
2.43.0


From a90ca4d3f406ec260593d5bf43f2aca228b27041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 48/90] fix: littlefs ignores a failure to rewind a directory

---
 src/littlefs_fs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9970e74..b798801 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -303,8 +303,7 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
 static int littlefs__dir_rewind(EvfsDir *dh) {
   LittlefsDir *dir = (LittlefsDir *)dh;
-  lfs_dir_rewind(dir->fs_data->lfs, &dir->dir);
-  return EVFS_OK;
+  return simple_error(lfs_dir_rewind(dir->fs_data->lfs, &dir->dir));
 }
 
 
-- 
2.43.0


From 26a2181691461f35ce41b1ab35263fc6f822ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 49/90] fix: littlefs stat shares its result buffer between
 threads

---
 src/littlefs_fs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index b798801..0690aa1 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -41,7 +41,6 @@ Embedded Virtual Filesystem
 
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
-  struct lfs_info info;
   char      cur_dir[LFS_NAME_MAX];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
@@ -356,22 +355,23 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
 
 static int littlefs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
+  struct lfs_info lfs_info;
 
   int status;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_stat(fs_data->lfs, path, &fs_data->info);
+    status = lfs_stat(fs_data->lfs, path, &lfs_info);
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    status = lfs_stat(fs_data->lfs, abs_path, &fs_data->info);
+    status = lfs_stat(fs_data->lfs, abs_path, &lfs_info);
     FREE_ABS(abs_path);
   }
 
   memset(info, 0, sizeof(*info));
 
   if(status >= 0) {  
-    info->size = fs_data->info.size;
-    if(fs_data->info.type & LFS_TYPE_DIR)
+    info->size = lfs_info.size;
+    if(lfs_info.type & LFS_TYPE_DIR)
       info->type |= EVFS_FILE_DIR;
 
   }
-- 
2.43.0


From 9c01a2068e39d0280c4a6c473b6f8e7e3d0189bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 50/90] fix: littlefs truncates a long current directory and
 hides why a change failed

---
 src/littlefs_fs.c | 56 +++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 0690aa1..23a57c0 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -41,7 +41,7 @@ Embedded Virtual Filesystem
 
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
-  char      cur_dir[LFS_NAME_MAX];
+  char      cur_dir[EVFS_MAX_PATH];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -476,9 +476,9 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  int status = range_cat_str(&r, fs_data->cur_dir);
   range_terminate(&r);
-  return EVFS_OK;
+  return status < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -486,39 +486,27 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, LFS_NAME_MAX-1);
-    fs_data->cur_dir[LFS_NAME_MAX-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, LFS_NAME_MAX);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: make_absolute_path() uses the shared buffer so we need our own.
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  // Confirm the path exists
+  EvfsInfo info;
+  status = vfs->m_stat(vfs, new_dir, &info);
+  if(status == EVFS_ERR_NO_FILE || (status == EVFS_OK && !(info.type & EVFS_FILE_DIR)))
+    return EVFS_ERR_NO_PATH;
 
-    evfs_free(joined_path);
-  }
+  if(status != EVFS_OK)
+    return status;
+
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From cb30aaddd9205f162eb5a1208c2c5cdb5cd9e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 51/90] fix: a littlefs image that could not be made is
 reported as made or left behind

---
 src/littlefs_image.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 2e395ed..a295dad 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -44,21 +44,37 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+
+    if(status == EVFS_OK) {
+      char force_data[] = "\0";
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == sizeof(char))
+        status = EVFS_OK;
+      else if(status >= 0)
+        status = EVFS_ERR_FS_FULL;
+    }
+
+    int close_status = evfs_file_close(img->fh);
+    if(status == EVFS_OK)
+      status = close_status;
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
-    if(status > 0) {
-      // Reopen for formatting
-      evfs_file_close(img->fh);
+    // Reopen for formatting
+    if(status == EVFS_OK)
       status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
 
+    if(status == EVFS_OK) {
       lfs_t lfs;
       status = (lfs_format(&lfs, cfg) == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
-    }
 
-    evfs_file_close(img->fh);
+      close_status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = close_status;
+    }
 
+    // Don't leave an unusable image that looks like an existing one
+    if(status != EVFS_OK)
+      evfs_delete(img_path);
   }
 
   img->fh = NULL;
-- 
2.43.0


From 12ba91fccd2aa36fab33d473750a7c639dc70cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 52/90] fix: a littlefs image is accessed at the wrong place
 when a seek fails

---
 src/littlefs_image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index a295dad..7698c4a 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -144,7 +144,9 @@ int littlefs_image_read(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
+
   ptrdiff_t read = evfs_file_read(img->fh, buffer, size);
 
   return read == size ? LFS_ERR_OK : LFS_ERR_IO;
@@ -155,7 +157,8 @@ int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buffer, size);
   return wrote == size ? LFS_ERR_OK : LFS_ERR_IO;
-- 
2.43.0


From c0a7c01281e456f940bb34c1ac439a8e6e2e0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 53/90] fix: a failed littlefs image mount leaves a closed
 handle behind

---
 src/littlefs_image.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 7698c4a..60f701e 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -106,14 +106,17 @@ int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lf
   evfs_off_t expect_size = cfg->block_size * cfg->block_count;
   if(evfs_file_size(img->fh) != expect_size) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
     return EVFS_ERR;
   }
 
   status = lfs_mount(lfs, cfg); // Mount the filesystem
   status = (status == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -131,6 +134,7 @@ void littlefs_unmount_image(lfs_t *lfs) {
 
   lfs_unmount(lfs);
   evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
-- 
2.43.0


From 17e5a8c4999a3e43dd22850ef350c07dd8d3d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 54/90] fix: concurrent registrations lose or duplicate a
 filesystem

evfs_register() tested the list and looked for an existing entry before
taking the lock that protects the list, so two registrations at the same time
could overwrite each other or link the same object twice. Look the name up and
read the default while holding the lock.
---
 src/evfs.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..54b7c24 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -243,6 +243,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search for a VFS by name. The registry lock must be held.
+static Evfs *evfs__find_vfs_locked(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -254,17 +270,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = evfs__find_vfs_locked(vfs_name);
   UNLOCK();
 
   return rval;
@@ -275,11 +283,13 @@ Evfs *evfs_find_vfs(const char *vfs_name) {
 static Evfs *evfs__get_vfs(const char *vfs_name) {
   Evfs *vfs = NULL;
 
+  LOCK();
   if(vfs_name)
-    vfs = evfs_find_vfs(vfs_name);
+    vfs = evfs__find_vfs_locked(vfs_name);
 
   if(!vfs) // No name provided or not found in registered list
     vfs = s_default_vfs;
+  UNLOCK();
 
   return vfs;
 }
@@ -336,12 +346,11 @@ int evfs_register(Evfs *vfs, bool make_default) {
   // Check if evfs_init() was called
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
-
+  LOCK();
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = evfs__find_vfs_locked(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
@@ -367,12 +376,7 @@ int evfs_register(Evfs *vfs, bool make_default) {
         s_default_vfs = vfs;
     }
 
-    if(!new_vfs) {
-      UNLOCK();
-    }
-
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
@@ -393,8 +397,8 @@ int evfs_register(Evfs *vfs, bool make_default) {
     if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
 
     if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
-    UNLOCK();
   }
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From bfa2508fe97345c2eb53f0e1c1355cfed396ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 55/90] fix: unregistering everything follows links of entries
 already removed

evfs_unregister_all() walked the list without the lock and kept a pointer to
the next entry, which another thread can unregister and free meanwhile.
---
 src/evfs.c | 49 ++++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 54b7c24..c47fcca 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -404,22 +404,10 @@ int evfs_register(Evfs *vfs, bool make_default) {
 }
 
 
-/*
-Unregister a VFS object
-
-Args:
-  vfs: The VFS to remove
-
-Returns:
-  EVFS_OK on success
-*/
-int evfs_unregister(Evfs *vfs) {
-  if(PTR_CHECK(vfs)) return EVFS_ERR_BAD_ARG;
-
-  LOCK();
+// Unlink a VFS from the registry. The registry lock must be held.
+static int evfs__unregister_locked(Evfs *vfs) {
   Evfs *cur_vfs = s_vfs_list;
   Evfs *prev_vfs = NULL;
-  int rval = EVFS_ERR_NO_VFS;
 
   // Find the VFS an unlink it
   while(cur_vfs) {
@@ -439,13 +427,31 @@ int evfs_unregister(Evfs *vfs) {
       if(s_default_vfs == vfs) // Set new default if needed
         s_default_vfs = s_vfs_list;
 
-      rval = EVFS_OK;
-      break;
+      return EVFS_OK;
     }
 
     prev_vfs = cur_vfs;
     cur_vfs = cur_vfs->next;
   }
+
+  return EVFS_ERR_NO_VFS;
+}
+
+
+/*
+Unregister a VFS object
+
+Args:
+  vfs: The VFS to remove
+
+Returns:
+  EVFS_OK on success
+*/
+int evfs_unregister(Evfs *vfs) {
+  if(PTR_CHECK(vfs)) return EVFS_ERR_BAD_ARG;
+
+  LOCK();
+  int rval = evfs__unregister_locked(vfs);
   UNLOCK();
 
   if(rval == EVFS_OK)
@@ -460,14 +466,11 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
-
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
+  LOCK();
+  while(s_vfs_list) {
+    evfs__unregister_locked(s_vfs_list);
   }
+  UNLOCK();
 }
 
 
-- 
2.43.0


From 35104a5bf922a3ffabde1a854b5c95d91fb4dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 56/90] fix: a filesystem registered under a name in use is
 never released

The object passed in is dropped in favour of the one already registered. The
registration functions made it, so nobody else can release it.
---
 src/evfs.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index c47fcca..24089ce 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -340,6 +340,7 @@ Returns:
 */
 int evfs_register(Evfs *vfs, bool make_default) {
   bool new_vfs = false;
+  Evfs *unused_vfs = NULL;
 
   if(PTR_CHECK(vfs)) return EVFS_ERR_BAD_ARG;
 
@@ -356,6 +357,8 @@ int evfs_register(Evfs *vfs, bool make_default) {
       s_vfs_list = vfs;
       new_vfs = true;
     } else {
+      if(existing_vfs != vfs)
+        unused_vfs = vfs;
       vfs = existing_vfs; // Make sure we use the correct object already in the list
     }
 
@@ -400,6 +403,10 @@ int evfs_register(Evfs *vfs, bool make_default) {
   }
   UNLOCK();
 
+  // Let the VFS we didn't need release its resources
+  if(unused_vfs && unused_vfs->m_vfs_ctrl)
+    unused_vfs->m_vfs_ctrl(unused_vfs, EVFS_CMD_UNREGISTER, NULL);
+
   return EVFS_OK;
 }
 
-- 
2.43.0


From c5219495ec8a2be68a42bc02eb953c26be48254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 57/90] fix: registering a filesystem before initialisation
 leaks it

The registry refuses the new filesystem when evfs_init() has not been called,
but nothing released what had been allocated for it. Refuse first.
---
 src/evfs.c          | 6 ++++++
 src/evfs_internal.h | 2 ++
 src/fatfs_fs.c      | 1 +
 src/littlefs_fs.c   | 1 +
 src/romfs_fs.c      | 2 ++
 src/tar_fs.c        | 1 +
 src/tar_rsrc_fs.c   | 1 +
 7 files changed, 14 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 24089ce..90471fd 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -157,6 +157,12 @@ const char *evfs_cmd_name(int cmd) {
 // ******************** Internal use ********************
 
 
+// True once evfs_init() has been called and VFSs can be registered
+bool evfs__initialized(void) {
+  return s_evfs_initialized;
+}
+
+
 // True when path is a directory
 bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
   EvfsInfo info;
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index c790f39..21b2483 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -154,6 +154,8 @@ static inline int evfs__nop(EvfsLock *(l)) { return 0; }
 
 void evfs__lib_init(void);  // Called by evfs__init_once()
 
+bool evfs__initialized(void);
+
 bool evfs__vfs_existing_dir(Evfs *vfs, const char *path);
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin);
 char *evfs__vmprintf(const char *fmt, va_list args);
diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index d359ad5..e0d31a3 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -596,6 +596,7 @@ Returns:
 */
 int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   if(PTR_CHECK(vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(!evfs__initialized()) THROW(EVFS_ERR_INIT); // Would be refused after we acquired everything
   Evfs *new_vfs;
   FatfsData *fs_data;
 
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 23a57c0..52304bf 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -574,6 +574,7 @@ Returns:
 */
 int evfs_register_littlefs(const char *vfs_name, lfs_t *lfs, bool default_vfs) {
   if(PTR_CHECK(vfs_name) || PTR_CHECK(lfs)) return EVFS_ERR_BAD_ARG;
+  if(!evfs__initialized()) THROW(EVFS_ERR_INIT); // Would be refused after we acquired everything
   Evfs *new_vfs;
   LittlefsData *fs_data;
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 6381b0b..5e091d0 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -532,6 +532,8 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
   Evfs      *new_vfs;
   RomfsData *fs_data;
 
+  if(!evfs__initialized()) THROW(EVFS_ERR_INIT); // Would be refused after we acquired everything
+
   // Construct a new VFS
   // We have three objects allocated together [Evfs][RomfsData][char[]]
   size_t alloc_size = sizeof(*new_vfs) + sizeof(*fs_data) + strlen(vfs_name)+1;
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 31b3729..09cbbde 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -560,6 +560,7 @@ Returns:
 */
 int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_vfs) {
   if(PTR_CHECK(vfs_name) || PTR_CHECK(tar_file)) return EVFS_ERR_BAD_ARG;
+  if(!evfs__initialized()) THROW(EVFS_ERR_INIT); // Would be refused after we acquired everything
   Evfs *new_vfs;
   TarfsData *fs_data;
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index e1c9a04..14f39fa 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -572,6 +572,7 @@ Returns:
 int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t resource_len,
                               bool default_vfs) {
   if(PTR_CHECK(vfs_name) || PTR_CHECK(resource)) return EVFS_ERR_BAD_ARG;
+  if(!evfs__initialized()) THROW(EVFS_ERR_INIT); // Would be refused after we acquired everything
   Evfs *new_vfs;
   TarfsData *fs_data;
 
-- 
2.43.0


From 39a8307dae742cd948fe87e1311ab7499090a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 58/90] fix: a stdio listing stops with an error at an entry
 removed meanwhile

Where the host doesn't report entry types the entry is looked up, which fails
when it was removed after the listing began.
---
 src/stdio_fs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 1a7332d..f8cc09a 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -268,10 +268,12 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
        info->type |= EVFS_FILE_DIR;
     else if(posix_entry->d_type == DT_UNKNOWN) { // Not provided by all filesystems
       struct stat s;
-      if(fstatat(dirfd(dir->dp), posix_entry->d_name, &s, AT_SYMLINK_NOFOLLOW) != 0)
+      if(fstatat(dirfd(dir->dp), posix_entry->d_name, &s, AT_SYMLINK_NOFOLLOW) == 0) {
+        if(S_ISDIR(s.st_mode))
+          info->type |= EVFS_FILE_DIR;
+      } else if(errno != ENOENT) { // Not just removed since the listing began
         return last_error();
-      if(S_ISDIR(s.st_mode))
-        info->type |= EVFS_FILE_DIR;
+      }
     }
   } else {
     info->name = NULL;
-- 
2.43.0


From 593e5e656f5a52dc85252fe3480ee086ade00975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 59/90] fix: asking for the default's name uses a filesystem
 being unregistered

The name was read after the registry lock had been released.
---
 src/evfs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 90471fd..ff2f803 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -323,7 +323,11 @@ Returns:
   The name of the default VFS
 */
 const char *evfs_default_vfs_name(void) {
-  return evfs_vfs_name(evfs__get_vfs(NULL));
+  LOCK();
+  const char *name = s_default_vfs ? s_default_vfs->vfs_name : "";
+  UNLOCK();
+
+  return name;
 }
 
 
-- 
2.43.0


From df69fa25c2025b04b7fb00780d6edf0f6a5823b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 60/90] fix: making a path misreads its text and takes files
 for directories

The caller's range was changed, the text was read past the end of a range
that is a part of a longer string, an unterminated last separator did not fit
and a component that is a file was reported as success.
---
 src/evfs.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index ff2f803..657a13f 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -683,7 +683,7 @@ int evfs_make_path_ex(const char *path, const char *vfs_name) {
   if(PTR_CHECK(path)) return EVFS_ERR_BAD_ARG;
 
   StringRange path_r;
-  range_init(&path_r, (char *)path, strlen(path)+1);
+  range_init(&path_r, (char *)path, strlen(path)+1); // The range's NUL is not part of the path
   return evfs_make_path_range_ex(&path_r, vfs_name);
 }
 
@@ -709,32 +709,35 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
-  size_t path_len = range_size(path);
+  size_t path_len = range_strlen(path);
   int rval = EVFS_OK;
 
-  char *cur_path = evfs_malloc(path_len+1); // Buffer to hold sub-paths
+  // One buffer to hold sub-paths with a trailing separator and NUL
+  // and a second with the text of the range
+  char *cur_path = evfs_malloc(path_len+2 + path_len+1);
   if(MEM_CHECK(cur_path)) return EVFS_ERR_ALLOC;
 
+  char *path_text = cur_path + path_len+2;
+  memcpy(path_text, path->start, path_len);
+  path_text[path_len] = '\0';
+
   // Use string range to concatenate each path segment
   AppendRange cur_path_r;
-  range_init(&cur_path_r, cur_path, path_len+1);
-
-  size_t limit = path_len;
+  range_init(&cur_path_r, cur_path, path_len+2);
 
   // Add root separator for absolute paths
   StringRange root;
-  bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
+  bool is_absolute = vfs->m_path_root_component(vfs, path_text, &root);
   if(is_absolute) {
     // Skip over the root component
-    path->start += range_size(&root);
-    limit -= range_size(&root);
+    path_text += range_size(&root);
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
 
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token(path_text, EVFS_PATH_SEPS, &token);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
@@ -749,10 +752,13 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // A file is in the way
+      rval = EVFS_ERR_EXISTS;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-    new_tok = range_token_limit(NULL, EVFS_PATH_SEPS, &token, &limit);
+    new_tok = range_token(NULL, EVFS_PATH_SEPS, &token);
   }
 
 cleanup:
-- 
2.43.0


From d19f9fdc7dbc218677ed396854da22182da7a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 61/90] fix: copying a file loses errors and ignores the source
 position

The size to copy did not regard the source's position, a failing size was
taken as a huge size after the destination was made, and a destination that
could not be closed was reported as success.
---
 src/evfs.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 657a13f..985cdb2 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -920,6 +920,15 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
+  // Copy from the current position to the end of the source
+  evfs_off_t src_size = evfs_file_size(fh);
+  if(src_size < 0) return src_size;
+
+  evfs_off_t src_pos = evfs_file_tell(fh);
+  if(src_pos < 0) return src_pos;
+
+  size_t copy_size = src_pos < src_size ? src_size - src_pos : 0;
+
   EvfsFile *dest_fh;
   int flags = EVFS_WRITE | EVFS_NO_EXIST;
 
@@ -940,17 +949,15 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     alloc_buf = true;
   }
 
-  size_t copy_size = evfs_file_size(fh);
-
   while(copy_size > 0) {
     size_t read_size = MIN(copy_size, buf_size);
-    int read = evfs_file_read(fh, buf, read_size);
+    ptrdiff_t read = evfs_file_read(fh, buf, read_size);
     if(read <= 0) {
       rval = read < 0 ? read : EVFS_ERR_IO;
       break;
     }
 
-    int wrote = evfs_file_write(dest_fh, buf, read);
+    ptrdiff_t wrote = evfs_file_write(dest_fh, buf, read);
     if(wrote != read) {
       rval = wrote < 0 ? wrote : EVFS_ERR_IO;
       break;
@@ -964,7 +971,10 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     evfs_free(buf);
 
 cleanup:
-  evfs_file_close(dest_fh);
+  ; // Unwritten data may only be lost now
+  int close_status = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK)
+    rval = close_status;
 
   return rval;
 }
-- 
2.43.0


From d9355e5f077fe7fc5083884ef0005beef1585a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 62/90] fix: evfs_copy_to_file() ignores the buffer passed to
 it

---
 include/evfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
-- 
2.43.0


From cae8b9b33572e55eb85609f70d67db093cd11d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 63/90] fix: a log is opened although it must not exist

---
 src/shim_rotate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 9d30393..23f7bb8 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1322,6 +1322,8 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   // Check if this is an existing regular file
   if(exists && !is_rotate_file(base_vfs, path)) {
     status = base_vfs->m_open(base_vfs, path, fil->base_file, flags);
+  } else if(exists && (flags & EVFS_NO_EXIST)) {
+    status = EVFS_ERR_EXISTS;
   } else {
     // Open or create a container
     status = EVFS_OK;
-- 
2.43.0


From 17e6729395540a53225375c1d6a012eb3a897634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 64/90] fix: a bracket pattern reads past the end of names and
 patterns

An inverted set matched the end of the name, an unterminated set was read
beyond, and a span up to the last character code never ended.
---
 src/util/glob.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..b83dfd9 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -62,13 +62,13 @@ typedef struct {
   uint32_t chars[8]; // 256 bits
 } CharSet;
 
-#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1 << ( ((uint8_t)(c)) % 32)) )
-#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1 << ( ((uint8_t)(c)) % 32)) )
+#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1UL << ( ((uint8_t)(c)) % 32)) )
+#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1UL << ( ((uint8_t)(c)) % 32)) )
 #define COUNT_OF(a)            (sizeof(a) / sizeof(*a))
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  char end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -85,8 +85,8 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
-        ADD_TO_SET(cs, ch);
+      for(int span_ch = (uint8_t)*rng_pos; span_ch <= (uint8_t)end_ch; span_ch++) { // Add all chars in span
+        ADD_TO_SET(cs, span_ch);
       }
       rng_pos += 2;
     } else { // Single character
@@ -168,7 +168,9 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(*pat_pos == '\0') // Syntax error: Unterminated set
+          return false;
+        if(s_ch != '\0' && !char_match(s_ch, dir_separators) && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
           pat_pos++;
           continue;
-- 
2.43.0


From 8e2fccc44e9841a6fddd178d34c50c54932c66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 65/90] fix: text after a NUL character is lost when printing
 to a file

---
 src/evfs.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 985cdb2..d45ec3f 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1432,11 +1432,12 @@ Print formatted string to allocated buffer
 Args:
   fmt:  Format string
   args: Variable argument list
+  len:  Length of the formatted string
 
 Returns:
   A new string buffer on success. NULL on failure
 */
-char *evfs__vmprintf(const char *fmt, va_list args) {
+static char *vmprintf_len(const char *fmt, va_list args, size_t *len) {
   va_list args_check;
 
   // Duplicate args list so we can compute the length of the formatted string
@@ -1452,9 +1453,15 @@ char *evfs__vmprintf(const char *fmt, va_list args) {
   if(buf)
     vsprintf(buf, fmt, args);
 
+  *len = size > 0 ? size-1 : 0;
   return buf;
 }
 
+char *evfs__vmprintf(const char *fmt, va_list args) {
+  size_t len;
+  return vmprintf_len(fmt, args, &len);
+}
+
 
 /*
 Print a formatted string to a file
@@ -1470,15 +1477,16 @@ Returns:
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
   va_list args;
   char *buf;
+  size_t len;
 
   // Print into malloc'ed buffer
   va_start(args, fmt);
-  buf = evfs__vmprintf(fmt, args);
+  buf = vmprintf_len(fmt, args, &len);
   va_end(args);
 
   int status = EVFS_ERR_ALLOC;
   if(buf) {
-    status = evfs_file_write(fh, buf, strlen(buf));
+    status = evfs_file_write(fh, buf, len);
     evfs_free(buf);
   }
 
-- 
2.43.0


From dbecd1f866b50049c6b9c15feac7d7b2bcb5f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 66/90] fix: a log loses the failure to close one of its chunks

A chunk that can't be closed when another is needed may not be stored.
That was only seen by the call that switched chunks, if at all, and the
log could still be synced and closed with success.
---
 src/shim_rotate.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 23f7bb8..52235ad 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -178,6 +178,7 @@ typedef struct MultipartState {
   ChunkId     active_chunk;
   EvfsFile   *active_chunk_fh;
   bool        torn_tail;    // A failed write may have left partial data after the end
+  int         lost_status;  // First failure to close a chunk with data to keep
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   SharedBuffer *buf;
@@ -419,7 +420,7 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
-static int deactivate_chunk(MultipartState *ms);
+static int close_chunk(MultipartState *ms);
 
 // Delete a chunk file holding chunk_size bytes of the logical file
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t chunk_size) {
@@ -427,7 +428,7 @@ static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, ev
 
   // Never delete a chunk file that is still open
   if(ms->active_chunk.chunk == chunk_num.chunk && ms->active_chunk.gen == chunk_num.gen)
-    deactivate_chunk(ms); // This chunk's data is about to be dropped so its close status is irrelevant
+    close_chunk(ms); // This chunk's data is about to be dropped so its close status is irrelevant
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -468,7 +469,7 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static int deactivate_chunk(MultipartState *ms) {
+static int close_chunk(MultipartState *ms) {
   int status = EVFS_OK;
 
   // Shutdown current active chunk
@@ -482,6 +483,17 @@ static int deactivate_chunk(MultipartState *ms) {
 }
 
 
+static int deactivate_chunk(MultipartState *ms) {
+  int status = close_chunk(ms);
+
+  // Data may be lost: This has to be known by whoever syncs or closes the log
+  if(status != EVFS_OK && ms->lost_status == EVFS_OK)
+    ms->lost_status = status;
+
+  return status;
+}
+
+
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
@@ -928,6 +940,8 @@ static int rotate__file_close(EvfsFile *fh) {
 
     // Shutdown current active chunk
     status = deactivate_chunk(&rs->base);
+    if(status == EVFS_OK)
+      status = rs->base.lost_status;
 
     evfs_free(rs);
 
@@ -1167,6 +1181,8 @@ static int rotate__file_sync(EvfsFile *fh) {
     if(rs->base.active_chunk_fh)
       status = evfs_file_sync(rs->base.active_chunk_fh);
 
+    if(status == EVFS_OK)
+      status = rs->base.lost_status;
   }
 
   return status;
-- 
2.43.0


From 0088a8c5b8c703d7e787030b7bc771e7709971d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 67/90] fix: file commands were reported as done by filesystems
 that have none

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e0d31a3..634aef9 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -112,7 +112,7 @@ static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange
 static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //FatfsFile *fil = (FatfsFile *)fh;
 
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT; // There are no commands for files
 }
 
 static int fatfs__file_close(EvfsFile *fh) {
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 52304bf..304d725 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -171,7 +171,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
 static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //LittlefsFile *fil = (LittlefsFile *)fh;
   
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT; // There are no commands for files
 }
 
 static int littlefs__file_close(EvfsFile *fh) {
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index f8cc09a..56f6e7f 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -106,7 +106,7 @@ static inline int last_error(void) {
 static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
   //StdioFile *fil = (StdioFile *)fh;
   
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT; // There are no commands for files
 }
 
 static int stdio__file_close(EvfsFile *fh) {
-- 
2.43.0


From bab8ad25046148690a7fe7a80def554b3a4ca52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 68/90] fix: path root query without a filesystem or argument
 reported an absolute path

---
 src/evfs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index d45ec3f..0f486d9 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1001,9 +1001,12 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
+
+  range_init(root, (char *)path, 0);
+
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) return false;
 
   return vfs->m_path_root_component(vfs, path, root);
 }
-- 
2.43.0


From 9dd451062781fbd37dcb6253e32dfb4b6cd73c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 69/90] fix: null arguments to file control, puts and
 handle-based open were dereferenced

---
 src/evfs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 0f486d9..8340c1b 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -528,6 +528,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open(Evfs *vfs, const char *path, EvfsFile **fh, int flags) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   *fh = (EvfsFile *)evfs_malloc(vfs->vfs_file_size);
   if(MEM_CHECK(*fh)) return EVFS_ERR_ALLOC;
 
@@ -812,6 +813,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(dh)) return EVFS_ERR_BAD_ARG;
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
@@ -1184,6 +1186,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1508,6 +1511,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
   return evfs_file_write(fh, str, strlen(str));
 }
 
-- 
2.43.0


From a6d7da0e9736a6cbf63056cc265713d3633b167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 70/90] fix: romfs without a shared buffer shares the image
 without locking

---
 src/romfs_fs.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 5e091d0..0a00c51 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -31,8 +31,8 @@ Embedded Virtual Filesystem
 
 ///////////////////////////////////////////////////////////////////////////////////
 
-// Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// Shared image (and buffer) needs lock if threading is enabled
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -56,7 +56,7 @@ typedef struct RomfsData {
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
 #ifdef USE_ROMFS_LOCK
-  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer
+  EvfsLock  romfs_lock; // Serialize access to the image and shared abs_path buffer
 #endif
 
   Romfs romfs;
@@ -367,7 +367,13 @@ static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *
   // We must normalize absolute paths too because the fast index can't handle denormal paths.
   // The lock is held until FREE_ABS() so that the shared image is only accessed by one thread.
   MAKE_ABS(path, abs_path);
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+  LOCK(); // Not held by MAKE_ABS()
+#endif
   status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+  UNLOCK();
+#endif
   FREE_ABS(abs_path);
 
   return status;
-- 
2.43.0


From 310dbd367f3a1f12ba1a5104f954f735f862b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 71/90] fix: fatfs listings report an hour too much in summer
 time

---
 src/fatfs_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 634aef9..f619c7d 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -318,6 +318,8 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
     mtime.tm_hour = dir->info.ftime & 0x1F;
 
+    mtime.tm_isdst = -1; // FAT timestamps are local time
+
     info->mtime = mktime(&mtime);
 
   } else { // End of entries
-- 
2.43.0


From 8798ffe691fbabbb42c26971c78a7d484c0d8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 72/90] fix: the extension of a name of leading dots is not an
 extension

---
 src/evfs_path.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index bc41899..6eaa71e 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -129,16 +129,17 @@ int evfs_path_extname(const char *path, StringRange *ext) {
   evfs_path_basename(path, ext);
   const char *pos = ext->end;
 
-  if(range_size(ext) > 0) {
-    // Scan back for first period
-    while(pos > ext->start) {
-      if(*pos == '.')
-        break;
-      pos--;
-    }
+  // Leading periods are part of the name
+  const char *name = ext->start + strspn(ext->start, ".");
+
+  // Scan back for first period
+  while(pos > name) {
+    if(*pos == '.')
+      break;
+    pos--;
   }
 
-  if(pos > ext->start) { // Extension found
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
-- 
2.43.0


From df2340d4435a5ad6fe641a0083767aefecd844a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 73/90] fix: dirname leaves repeated separators and drops a
 drive prefix

---
 src/evfs_path.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 6eaa71e..a398abd 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -151,20 +151,20 @@ int evfs_path_extname(const char *path, StringRange *ext) {
 
 int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
   if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(head)) return EVFS_ERR_BAD_ARG;
-  const char *end = (char *)path + strlen(path) + 1;
-  const char *pos = end - 1;
+  const char *pos = path + strlen(path);
 
-  // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
-    pos--;
-
-  // If this is a root path we keep a trailing slash
+  // The root component always belongs to the head
   // We could have multiple root separators. Keep them all
   StringRange root;
   vfs->m_path_root_component(vfs, path, &root);
-  if(pos == path + range_size(&root)-1 && char_match(*pos, EVFS_PATH_SEPS)) {
-    pos++;
-  }
+  const char *root_end = path + range_size(&root);
+
+  // Look for rightmost delimiter
+  while(pos > root_end && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
+    pos--;
+
+  while(pos > root_end && char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip separators before it
+    pos--;
 
   range_init(head, path, pos - path);
 
-- 
2.43.0


From 63e561b58b93082843e808cec06be2ca4f2bdec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 74/90] fix: joined paths are cut short when they exactly fill
 the output, and the head is read past its end

---
 src/evfs_path.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index a398abd..1273343 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -196,13 +196,14 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   size_t tail_len = range_strlen(tail);
   // We need to fit in the joined string, possibly with a new separator
   size_t joined_len = head_len + 1 + tail_len;
+  size_t free_size = range_size(&joined_a);
 
 
 #ifndef ALLOW_LONG_PATHS
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  if(ASSERT(head_len + tail_len < free_size, "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
@@ -210,11 +211,14 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   // Join with the separator
   // If head is empty no separator
   // If head is only a root component we don't need to add an extra separator
+  // The head may not be terminated so we examine the copy
   StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
+  vfs->m_path_root_component(vfs, joined->start, &root);
 
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
+  if(head_len > 0 && head_len != (size_t)range_size(&root)) {
+    if(ASSERT(joined_len < free_size, "joined string too long")) return EVFS_ERR_OVERFLOW;
     range_cat_char(&joined_a, EVFS_DIR_SEP);
+  }
 
   if(tail_len > 0)
     range_cat_range(&joined_a, tail);
-- 
2.43.0


From 1bf5309f9ef9a9c3051a74df425fa3aaa9aba72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 75/90] fix: normalizing into an empty output writes past it

---
 src/evfs_path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 1273343..8f10e6c 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -273,6 +273,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 */
 
   AppendRange norm_r = *(AppendRange *)normalized; // Duplicate so we preserve original range
+  if(range_size(&norm_r) < 1) THROW(EVFS_ERR_OVERFLOW); // No room for the NUL
 
   unsigned seg_mask = 0; // Bitmask of path segments to retain
 #define MAX_SEGMENTS    (sizeof(seg_mask) * 8)
-- 
2.43.0


From 03fb0f1cb4a49b585ec191c1a3a6127cfdc35553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 76/90] fix: a long root component is not normalized when
 memory is short

---
 src/evfs_path.c | 62 +++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 49 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 8f10e6c..37fe1b3 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -23,58 +23,22 @@ Embedded Virtual Filesystem
 #include "evfs/util/glob.h"
 
 
-static bool normalize_root_component(Evfs *vfs, char *path, StringRange *root) {
-  bool is_absolute = vfs->m_path_root_component(vfs, path, root);
-
-  if(is_absolute) { // Trim redundant slashes from range
-    const char *start = root->start;
-    char *pos = (char *)root->end-1;
-
-    while(pos > start && char_match(*pos, EVFS_PATH_SEPS)) {
-      pos--;
-    }
-
-    if(pos > start) // Root has non-slash prefix (drive letter); grow to restore one slash
-      pos++;
-
-    root->end = pos+1; // Trim range
-    if(*pos == '\\')
-      *pos = EVFS_DIR_SEP;
-  }
-
-  return is_absolute;
-}
-
-
-static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *root) {
+static bool append_normalized_root(AppendRange *dest, StringRange *root) {
   bool truncated = false;
+  StringRange prefix = *root; // Any drive letter before the separators
 
-  // Copy the un-normalized root
-  if(range_size(root) < 16) {
-    char root_buf[16] = {0};
-    strncpy(root_buf, root->start, range_size(root));
-    normalize_root_component(vfs, root_buf, root);
-    if(range_cat_range_no_nul(dest, root) < 0)
-      truncated = true;
-
-  } else { // Fallback to malloc
-    char *root_norm = evfs_malloc(range_size(root)+1);
-    if(MEM_CHECK(root_norm)) { // Failed malloc
-      // Just append the root without normalization
-      if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+  // Trim all separators
+  while(prefix.end > prefix.start && char_match(*(prefix.end-1), EVFS_PATH_SEPS))
+    prefix.end--;
 
-    } else { // Success
-      memset(root_norm, 0, range_size(root)+1);
-      strncpy(root_norm, root->start, range_size(root));
-      normalize_root_component(vfs, root_norm, root);
+  bool has_sep = prefix.end < root->end;
 
-      if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+  // The root and destination may overlap but we never get ahead of the root
+  if(range_cat_range_no_nul(dest, &prefix) < 0)
+    truncated = true;
 
-      evfs_free(root_norm);
-    }
-  }
+  if(has_sep && range_cat_char_no_nul(dest, EVFS_DIR_SEP) < 0)
+    truncated = true;
 
   return truncated;
 }
@@ -346,7 +310,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   if(is_absolute) {
 
     // Copy the un-normalized root
-    if(append_normalized_root(vfs, &norm_r, &root))
+    if(append_normalized_root(&norm_r, &root))
       truncated = true;
 
   }
@@ -451,7 +415,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
 
   // If absolute path add root prefix
   if(is_absolute) {
-    if(append_normalized_root(vfs, normalized, &root))
+    if(append_normalized_root(normalized, &root))
       truncated = true;
   }
 
-- 
2.43.0


From 272c3c11bf0c0bc6de85b1326edd8909fb1335ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 77/90] fix: appending to an empty range writes past it

---
 src/util/range_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..1a8bde9 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -206,12 +206,12 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
   rval = src - str; // Number of bytes copied
 
   if(!done) { // Truncated
-    if(truncate) {
+    if(truncate && dest > rng->start) {
       dest--;
       *dest = '\0';
       rval = -(rval-1);
     } else {
-      if(rng->start)
+      if(rng->start && rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
@@ -321,7 +321,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +361,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +410,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +459,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
-- 
2.43.0


From 3b19db1d680e5c5bc421c50b30c1438b6d5cb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 78/90] fix: terminating an empty range writes before it

---
 src/util/range_strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 1a8bde9..25b4ad0 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -875,6 +875,9 @@ Args:
 */
 void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
+  if(maxlen == 0) // No room for a NUL
+    return;
+
   size_t rlen = strnlen(rng->start, maxlen);
 
   if(rlen == maxlen) { // No NUL found
-- 
2.43.0


From 7c1637c2782be42b5fbb71a08cab2f73a435875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 79/90] fix: the FatFs current directory is written past an
 empty output

---
 src/fatfs_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index f619c7d..fd917d9 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -535,6 +535,9 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
+  if(range_size(cur_dir) < 1) // FatFs always writes to the buffer
+    return EVFS_ERR_OVERFLOW;
+
   select_volume((FatfsData *)vfs->fs_data);
   FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
-- 
2.43.0


From d8b0d871591ad0ad50d6a6d23f2bee616fd694e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 80/90] fix: normalizing loses the drive of a relative path

---
 src/evfs_path.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 37fe1b3..9ccadcf 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -253,8 +253,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root); // A relative path can have a drive letter too
 
   // Iterate over each segment of path
   StringRange token;
@@ -306,10 +305,8 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
-
-    // Copy the un-normalized root
+  // Add any root prefix
+  if(range_size(&root) > 0) {
     if(append_normalized_root(&norm_r, &root))
       truncated = true;
 
@@ -364,8 +361,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root); // A relative path can have a drive letter too
 
 
   // Iterate over each segment of path
@@ -413,8 +409,8 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   // Assemble the stacked tokens into a path
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
+  // Add any root prefix
+  if(range_size(&root) > 0) {
     if(append_normalized_root(normalized, &root))
       truncated = true;
   }
-- 
2.43.0


From e0c70a59b7cb9ef6b0ea5491af15c2b4ebd683c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 81/90] fix: an absolute path loses its drive in a small output

---
 src/evfs_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 9ccadcf..51829e7 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -520,8 +520,10 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   size_t root_len = range_size(&root);
   path_start += root_len;
 
-  if(range_size(&root) > 0) // Add any relative root prefix from path now
-    range_cat_range((AppendRange *)&joined_r, &root);
+  if(range_size(&root) > 0) { // Add any relative root prefix from path now
+    if(range_cat_range((AppendRange *)&joined_r, &root) < 0)
+      THROW(EVFS_ERR_OVERFLOW);
+  }
 
   // Get current directory
   rval = vfs->m_get_cur_dir(vfs, &joined_r);
-- 
2.43.0


From 7e0303b3586a1a9269fccd404dd19b84c16c69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 82/90] fix: asking for the size of a file hides a failure to
 sync it

The size query syncs the file first. When that fails the file's own error
state may be cleared, so that a later sync or close reports success for data
which never reached the storage.
---
 src/evfs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8340c1b..5eb5a88 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -186,7 +186,7 @@ evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir or
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      offset = fh->methods->m_size(fh) - offset;
       break;
 
     default:
@@ -1281,12 +1281,13 @@ Args:
   fh:   The file to size up
 
 Returns:
-  Size of the open file
+  Size of the open file or negative error code when it can't be synced
 */
 evfs_off_t evfs_file_size(EvfsFile *fh) {
   if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
 
-  fh->methods->m_sync(fh); // Need to flush internal FS buffers
+  int status = fh->methods->m_sync(fh); // Need to flush internal FS buffers
+  if(status < 0 && status != EVFS_ERR_NO_SUPPORT) return status;
 
   return fh->methods->m_size(fh);
 }
-- 
2.43.0


From 348e055ef6920994b770db7fb30bb33854094640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 83/90] fix: hash values are accessed in padded size and the
 caller's value is exchanged

Insertions read, and lookups and removals write, up to seven bytes beyond
values whose size isn't a multiple of the pointer size. An insertion that
evicts an entry left that entry's value in the object of the caller.
---
 include/evfs/util/dhash.h |  3 ++-
 src/util/dhash.c          | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..22d9a28 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes per entry value, padded for alignment
+  size_t          obj_size;     // Bytes per value object of the user
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..e212d8e 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -391,6 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .obj_size     = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -701,7 +702,7 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
 
   if(entry && !WAS_DELETED(entry)) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->obj_size);
     return true;
   }
 
@@ -857,7 +858,14 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
 
 // Insert without existing ikey
 static inline bool dh__insert(dhash *hash, dhKey key, void *value) {
-  return dh__insert_ex(hash, key, value, dh__hash(hash, key));
+  // Evicted values are exchanged with the new one so this needs a copy of it
+  // that has the same padding as the values in the buckets
+  uintptr_t obj[hash->value_size / sizeof(uintptr_t) + 1];
+
+  memset(obj, 0, sizeof(obj));
+  memcpy(obj, value, hash->obj_size);
+
+  return dh__insert_ex(hash, key, obj, dh__hash(hash, key));
 }
 
 
@@ -974,7 +982,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     // Return removed value if caller wants to manage it, otherwise destroy it
     // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->obj_size);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
-- 
2.43.0


From 69cbe7e75a857e6aa319a25b68fa05ba90689bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 84/90] fix: the destructor of a removed hash entry doesn't get
 its key

---
 src/util/dhash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index e212d8e..bf4e5b4 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -987,6 +987,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
 #endif
+    dhKey old_key = entry->key;
     entry->key.data = NULL;
     entry->key.length = 0;
 
@@ -995,7 +996,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     hash->used_buckets--;
 
     if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+      hash->destroy_item(old_key, &entry->value_obj, hash->ctx);
 
     memset(&entry->value_obj, 0, hash->value_size);
 
-- 
2.43.0


From 4bba215370183a307403931ce480631e25df677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 85/90] fix: reserving hash capacity reports success without
 making the room

The number of buckets was rounded down, and a very large request overflowed
into a small one.
---
 src/util/dhash.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index bf4e5b4..b65356d 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -1084,11 +1084,18 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   add_capacity -= free_buckets;
 
+  if(add_capacity > DH_MAX_HASH_ENTRIES - hash_capacity) // Too many entries
+    return false;
+
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  size_t new_capacity = hash_capacity + add_capacity;
+  size_t new_buckets = new_capacity / lfactor * 128UL + (new_capacity % lfactor) * 128UL / lfactor + 1;
+
+  if(new_buckets > DH_MAX_HASH_ENTRIES)
+    return false;
 
-  return dh__grow(hash, new_buckets);
+  return dh__grow(hash, new_buckets) && dh_cur_capacity(hash) >= new_capacity;
 }
 
 
-- 
2.43.0


From 8b1fe6b76c96ce7e68685e63cf432f0e666fbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 86/90] fix: a hash entry stored where its hash value matches a
 removed one is lost

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index b65356d..ad143f6 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -789,7 +789,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
-- 
2.43.0


From af01e9910ec02a6311e1b57f3f83a64b2a598e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 87/90] fix: a hash set up in a small external buffer writes
 past it

---
 src/util/dhash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index ad143f6..c8671eb 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -409,6 +409,9 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       size_t bucket_size = sizeof(dhBucketEntry) + value_size;
       size_t ext_buckets = config->max_storage / bucket_size;
 
+      if(ext_buckets < (size_t)DH_MIN_BUCKETS) // Buffer is too small
+        return false;
+
       // Set largest bucket count for our growth scheme
 #ifndef DH_USE_2X_GROWTH
       hash->prime_ix = get_closest_prime_index_below(ext_buckets);
-- 
2.43.0


From 460e55e3eeece57176c089284c6adbea0635a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 88/90] fix: dumping a hash without values reads past its
 buckets

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index c8671eb..6a660f7 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -1170,7 +1170,7 @@ static void dh__dump_entry(dhash *hash, dhBucketEntry *entry, dhBucketIndex b) {
       -1,
 #endif
       (void *)&entry->value_obj[0],
-      (uintptr_t)entry->value_obj[0],
+      hash->value_size > 0 ? (uintptr_t)entry->value_obj[0] : (uintptr_t)0,
       //entry->flags,
       entry->deleted,
       PROBE_COUNT(entry),
-- 
2.43.0


From d9c308894f6f5547965bd6f8de20bba4fe808b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 89/90] fix: print signed offsets in the trace output

---
 src/shim_trace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_trace.c b/src/shim_trace.c
index 497dbb5..75c2447 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -185,7 +185,7 @@ static int trace__file_truncate(EvfsFile *fh, evfs_off_t size) {
   TraceFile *fil = (TraceFile *)fh;
   TraceData *shim_data = fil->shim_data;
 
-  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, size);
+  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, (long)size);
   int status = fil->base_file->methods->m_truncate(fil->base_file, size);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
@@ -231,7 +231,7 @@ static int trace__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   }
 
   trace_printf(shim_data, TP("%s.m_seek(" HL_NAME ", offset=%ld, origin=%s)"),
-               shim_data->vfs_name, fil->filename, offset, org_name);
+               shim_data->vfs_name, fil->filename, (long)offset, org_name);
   int status = fil->base_file->methods->m_seek(fil->base_file, offset, origin);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
-- 
2.43.0


From 02ca2a38886a262752c13d8af1a4a43731ebf0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 90/90] fix: a rotating container is listed as a directory when
 it can't be recognised

A failure to look up the geometry file was taken for its absence.
---
 src/shim_rotate.c | 49 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 52235ad..60235b6 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -346,22 +346,50 @@ static int clear_container(Evfs *base_vfs, const char *path) {
 }
 
 
-static bool is_rotate_file(Evfs *base_vfs, const char *path) {
+// Reduce the result of a stat to whether it is known if the object exists
+static int lookup_status(int status) {
+  switch(status) {
+  case EVFS_ERR:
+  case EVFS_ERR_IO:
+  case EVFS_ERR_CORRUPTION:
+  case EVFS_ERR_ALLOC:
+    return status;
+  default:
+    return EVFS_OK;
+  }
+}
+
+
+// Determine if a path is a container. Fails if its geometry file can't be looked up.
+static int find_rotate_file(Evfs *base_vfs, const char *path, bool *is_container) {
+  *is_container = false;
+
   // Container directory has to exist
   EvfsInfo info;
   int status = base_vfs->m_stat(base_vfs, path, &info);
 
-  if(status != EVFS_OK || !(info.type & EVFS_FILE_DIR))
-    return false;
+  if(status != EVFS_OK)
+    return lookup_status(status);
+
+  if(!(info.type & EVFS_FILE_DIR))
+    return EVFS_OK;
 
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
   if(evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r) != EVFS_OK)
-    return false;
+    return EVFS_OK;
 
   status = base_vfs->m_stat(base_vfs, joined, &info);
-  return status == EVFS_OK;
+  *is_container = status == EVFS_OK;
+
+  return lookup_status(status);
+}
+
+
+static bool is_rotate_file(Evfs *base_vfs, const char *path) {
+  bool is_container;
+  return find_rotate_file(base_vfs, path, &is_container) == EVFS_OK && is_container;
 }
 
 
@@ -1427,12 +1455,17 @@ static int rotate__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
   // Prevent opening container directories
-  if(is_rotate_file(base_vfs, path)) {
+  bool is_container;
+  int status = find_rotate_file(base_vfs, path, &is_container);
+  if(status == EVFS_OK && is_container)
+    status = EVFS_ERR_NO_PATH;
+
+  if(status != EVFS_OK) {
     dh->methods = NULL;
-    return EVFS_ERR_NO_PATH;
+    return status;
   }
 
-  int status = base_vfs->m_open_dir(base_vfs, path, dir->base_dir);
+  status = base_vfs->m_open_dir(base_vfs, path, dir->base_dir);
 
   if(status == EVFS_OK) {
     // Construct a shimmed dir object
-- 
2.43.0

