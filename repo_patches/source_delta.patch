From 81e92d49b748a1133e713144e97cac676f3a54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 01/86] fix: sequential mode, don't resolve an unknown id to
 another id's slot

---
 libzdb/index_get.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..69d60af 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -37,6 +37,14 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // ensure the entry found is really the one requested: an id which was
+    // never returned can be resolved (overflow) to the slot of another id
+    if(item->idlength != sizeof(seqid_t) || memcmp(item->id, id, sizeof(seqid_t)) != 0) {
+        zdb_debug("[-] index: sequential get: slot doesn't belong to this id\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
-- 
2.43.0


From 2851ccccdd24bd8ff7b9b40248719810d01a042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 02/86] fix: set the data file id in index entries (history,
 library sequential mode)

---
 libzdb/api.c        | 2 ++
 zdbd/commands_set.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..382dda3 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From f671650fb96efe243922ec222ec841d038d28a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 03/86] fix: library set, compare the payload and not only its
 checksum

---
 libzdb/api.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 382dda3..982e98a 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,22 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+
+// checksum match is not enough to know if data are the same
+static int api_payload_matching(namespace_t *ns, index_entry_t *existing, void *payload, size_t psize, uint32_t crc) {
+    if(existing->crc != crc || existing->length != psize)
+        return 0;
+
+    data_payload_t stored = data_get(ns->data, existing->offset, existing->length, existing->dataid, existing->idlength);
+    if(!stored.buffer)
+        return 0;
+
+    int match = (memcmp(stored.buffer, payload, psize) == 0);
+    free(stored.buffer);
+
+    return match;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,8 +142,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_payload_matching(ns, existing, payload, psize, dreq.crc)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -207,8 +223,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_payload_matching(ns, existing, payload, psize, dreq.crc)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
-- 
2.43.0


From d2120455e319afaaca80e102e10c98442e3eeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 04/86] fix: library set, use the mode of the namespace (out of
 bounds in mixed mode)

---
 libzdb/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 982e98a..83c16a4 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -320,7 +320,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         data_jump_next(ns->data, newid);
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From 41bfb329a3084fb027dca55e98be71dc5083cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 05/86] fix: sequential mode, map ids correctly with empty
 index files

---
 libzdb/index_loader.c | 23 ++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..f417974 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,15 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode
+    // we need to populate our mapping with the first id of
+    // this file, even if the file is empty (next id will be there)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting keys
+    if(root->seqid)
+        index_seqid_push(root, root->nextentry, root->indexid);
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +345,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..42deb7c 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // nothing was written in the previous file (it starts with the same id),
+    // there is no id to resolve there, the new file takes its place
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From 457d7c7d9b7e41ffc0c442c6f49861a51c006f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 06/86] fix: rscan, skip index files without any entry

---
 libzdb/index_scan.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..505dafe 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -26,6 +26,13 @@ static inline index_scan_t index_scan_error(index_scan_t original, index_scan_st
     return original;
 }
 
+// checking if nothing was written in this index file yet: the file
+// was just created after a jump, the previous entry (offset is already
+// known) is located in an older file
+static inline int index_scan_empty_file(int fd) {
+    return lseek(fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t);
+}
+
 //
 // oops, some mistake happened
 //
@@ -131,6 +138,10 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
     }
     #endif
 
+    // skipping empty file, keeping the target offset
+    if(index_scan_empty_file(scan.fd))
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
     // jumping to previous object
     lseek(scan.fd, scan.target, SEEK_SET);
 
@@ -447,6 +458,10 @@ static index_scan_t index_last_header_real(index_scan_t scan) {
         scan.target -= sizeof(index_item_t) + sizeof(uint32_t);
     }
 
+    // skipping empty file, keeping the target offset
+    if(index_scan_empty_file(scan.fd))
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
     // jumping to previous object
     lseek(scan.fd, scan.target, SEEK_SET);
 
-- 
2.43.0


From 05f7cd1c87b6422b9d0bfffeac3e9a734dc0eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 07/86] fix: index loader, recreate an index file interrupted
 before its header was complete

---
 libzdb/index_loader.c | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f417974..7cddd41 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -203,28 +203,12 @@ static size_t index_load_file(index_root_t *root) {
             return 1;
         }
 
-        if(length > 0) {
-            // we read something, but not the expected header, at least
-            // not this amount of data, which is a completly undefined behavior
-            // let's just stopping here
-            zdb_logerr("[-] index: header corrupted or incomplete\n");
-            zdb_logerr("[-] index: expected %lu bytes, %ld read\n", sizeof(index_header_t), length);
-            exit(EXIT_FAILURE);
-        }
-
-        // we could not read anything, which basicly means that
-        // the file is empty, we probably just created it
-        //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
-            zdb_verbose("[+] index: discarding file\n");
-            close(root->indexfd);
-            return 0;
-        }
+        // we could not read a complete header, which basicly means that
+        // the file is empty (we probably just created it) or it was being
+        // created when the process was interrupted, there is no entry
+        // inside, we can (re)create it from scratch
 
-        // if we are here, it's the first index file found
+        // if we are here, there is nothing to load from this file
         // and we are in read-only mode, we can't write on the index
         // and it's empty, there is no use in doing anything
         // let's crash
@@ -235,6 +219,11 @@ static size_t index_load_file(index_root_t *root) {
         }
 
         zdb_verbose("[+] index: creating empty file\n");
+
+        if(ftruncate(root->indexfd, 0) < 0)
+            zdb_diep(root->indexfile);
+
+        lseek(root->indexfd, 0, SEEK_SET);
         header = index_initialize(root->indexfd, root->indexid, root);
     }
 
-- 
2.43.0


From d3e724ca90dff800715b9722c33c5a3f532c23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 08/86] fix: index loader, discard an incomplete entry at the
 end of the index

---
 libzdb/index_loader.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 7cddd41..531292d 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -316,6 +316,21 @@ static size_t index_load_file(index_root_t *root) {
 
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
+        off_t remain = fullsize - offset;
+
+        // the last entry is incomplete (write was interrupted), this entry was
+        // never acknowledged, discarding it otherwise next entries would be
+        // appended after this garbage and couldn't be loaded anymore
+        if(remain < (off_t) sizeof(index_item_t) || remain < (off_t) sizeof(index_item_t) + entry->idlength) {
+            zdb_warning("[-] index: incomplete entry at the end of: %s", root->indexfile);
+
+            if(!(root->status & INDEX_READ_ONLY)) {
+                if(ftruncate(root->indexfd, offset) < 0)
+                    zdb_warnp(root->indexfile);
+            }
+
+            break;
+        }
 
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
-- 
2.43.0


From eb640fffaf139eb058a4b73893afb55094ba622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 09/86] fix: update of a key, write the new index entry before
 flagging the old one

---
 libzdb/index_loader.c | 12 ++++++++++++
 libzdb/index_set.c    | 24 +++++++++++-------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 531292d..a91b4ac 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -349,6 +349,18 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
+        // if the same key is already loaded, the process was interrupted
+        // during an update, before the old entry was flagged
+        index_entry_t *stale = NULL;
+
+        if(root->mode == ZDB_MODE_KEY_VALUE)
+            stale = index_get(root, entry->id, entry->idlength);
+
+        if(stale && !(root->status & INDEX_READ_ONLY)) {
+            index_entry_delete_disk(root, stale);
+            stale->flags = 0;
+        }
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..c8246a8 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -302,24 +302,22 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
-
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // link the new entry to the previous one, to keep history
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the new entry on the disk first, if this fails (or if we are
+    // interrupted here), the previous entry is still there and valid
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    index_entry_delete_disk(root, previous);
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-- 
2.43.0


From 9cccd2c70c600b24fc6dc6e9f8af3e96c7bc54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 10/86] fix: flush index entries modified in place when sync is
 requested

---
 libzdb/index.c     | 8 +-------
 libzdb/index_set.c | 2 +-
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..4907386 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -568,14 +568,8 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     lseek(fd, entry->idxoffset, SEEK_SET);
 
     // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, index_transition, entrylength, root)) {
         zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
-
         close(fd);
         return 1;
     }
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index c8246a8..a5ee588 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -95,7 +95,7 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, item, entrylength, root)) {
         zdb_warnp("index_seq_overwrite re-write");
         close(fd);
         return 1;
-- 
2.43.0


From 9a826b66308803658c727c9585dc29eb7992abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 11/86] fix: namespace settings, replace the descriptor
 atomically

---
 libzdb/namespace.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 libzdb/namespace.h |  2 +-
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..a5de813 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,9 +66,10 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// returns 0 on success, 1 if the descriptor could not be fully written
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
     ns_header_t header;
+    int errors = 0;
 
     zdb_debug("[+] namespaces: updating header\n");
 
@@ -84,19 +85,28 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
+    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         zdb_warnp("namespace legacy header write");
+        errors = 1;
+    }
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
+    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength) {
         zdb_warnp("namespace header name write");
+        errors = 1;
+    }
 
     if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
+        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength) {
             zdb_warnp("namespace header password write");
+            errors = 1;
+        }
     }
 
     // ensure metadata are written
-    fsync(fd);
+    if(fsync(fd) < 0)
+        errors = 1;
+
+    return errors;
 }
 
 static int namespace_descriptor_open(namespace_t *namespace) {
@@ -177,16 +187,36 @@ static void namespace_commit_hook(namespace_t *namespace) {
 // update persistence data of a namespace
 // basically, this rewrites it's metadata on disk
 int namespace_commit(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
+    char tempname[ZDB_PATH_MAX];
     int fd;
 
-    if((fd = namespace_descriptor_open(namespace)) < 0)
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+    snprintf(tempname, ZDB_PATH_MAX, "%s/zdb-namespace.new", namespace->indexpath);
+
+    // writing a new descriptor then replacing the existing one, an interruption
+    // can't let a descriptor partially updated
+    if((fd = open(tempname, O_CREAT | O_TRUNC | O_RDWR, 0600)) < 0) {
+        zdb_warnp(tempname);
         return fd;
+    }
 
     // update metadata
-    namespace_descriptor_update(namespace, fd);
+    int errors = namespace_descriptor_update(namespace, fd);
 
     close(fd);
 
+    // keep the existing descriptor if the new one is not complete
+    if(errors) {
+        unlink(tempname);
+        return -1;
+    }
+
+    if(rename(tempname, pathname) < 0) {
+        zdb_warnp(pathname);
+        return -1;
+    }
+
     // trigger updated hook
     namespace_commit_hook(namespace);
 
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..8cf7213 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -71,7 +71,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
-- 
2.43.0


From 6cae41fb83c413263b0404481bf63ad365b39dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 12/86] fix: namespace settings, rewrite an incomplete
 descriptor from its beginning

---
 libzdb/namespace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index a5de813..04c062d 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -135,6 +135,8 @@ static int namespace_descriptor_load(namespace_t *namespace) {
 
     if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         // probably new file, let's write initial namespace information
+        // (from the beginning, creation could have been interrupted)
+        lseek(fd, 0, SEEK_SET);
         namespace_descriptor_update(namespace, fd);
         close(fd);
         return 0;
-- 
2.43.0


From 5b025a18af1eb8b3e2fbb35acc75b0a2b9e9fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 13/86] fix: jump to the next files without exiting nor leaving
 the current ones on failure

---
 libzdb/api.c                        |  4 +-
 libzdb/data.c                       | 68 ++++++++++++++++++++++-------
 libzdb/data.h                       |  4 +-
 libzdb/index.c                      | 41 +++++++++++++++--
 libzdb/index_loader.c               | 20 +++++----
 libzdb/index_loader.h               |  1 +
 libzdb/namespace.c                  | 20 +++++++++
 libzdb/namespace.h                  |  1 +
 tools/index-rebuild/index-rebuild.c |  4 +-
 zdbd/commands_namespace.c           |  6 ++-
 zdbd/commands_set.c                 |  6 ++-
 zdbd/redis.c                        |  3 +-
 12 files changed, 139 insertions(+), 39 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 83c16a4..73d7621 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -316,8 +316,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // if we do this after adding data, we could have an empty data file
     // which will fake the 'previous' offset when computing it on reload
     if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {
-        size_t newid = index_jump_next(ns->index);
-        data_jump_next(ns->data, newid);
+        if(namespace_jump(ns))
+            return zdb_api_reply_error("Cannot write data right now");
     }
 
     return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..fcb4a74 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -242,16 +242,11 @@ static inline void data_release_dataid(data_root_t *root, fileid_t dataid, int f
 //
 // data management
 //
-void data_initialize(char *filename, data_root_t *root) {
+static int data_create(char *filename, fileid_t dataid, data_root_t *root) {
     int fd;
 
-    if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0) {
-        // ignoring initializer on read-only filesystem
-        if(errno == EROFS)
-            return;
-
-        zdb_diep(filename);
-    }
+    if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0)
+        return -1;
 
     #ifdef __linux__
     // pre-allocate data size to avoid fragmentation, only on Linux
@@ -267,12 +262,20 @@ void data_initialize(char *filename, data_root_t *root) {
     header.version = ZDB_DATAFILE_VERSION;
     header.created = 0; // timestamp are not used anymore, this allows
     header.opened = 0;  // checksum comparaison more efficient across replicat
-    header.fileid = root->dataid;
-
-    if(!data_write(fd, &header, sizeof(data_header_t), 1, root))
-        zdb_diep(filename);
+    header.fileid = dataid;
 
+    int success = data_write(fd, &header, sizeof(data_header_t), 1, root);
     close(fd);
+
+    return success ? 0 : -1;
+}
+
+void data_initialize(char *filename, data_root_t *root) {
+    if(data_create(filename, root->dataid, root) < 0) {
+        // ignoring initializer on read-only filesystem
+        if(errno != EROFS)
+            zdb_diep(filename);
+    }
 }
 
 // simply set globally the current filename based on it's id
@@ -408,9 +411,42 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
     return raw;
 }
 
+// create the next data file, without touching the current one
+// returns the new file descriptor, or -1 if the file could not be created
+int data_jump_create(data_root_t *root, fileid_t newid) {
+    char filename[ZDB_PATH_MAX];
+    int fd;
+
+    snprintf(filename, ZDB_PATH_MAX, "%s/d%u", root->datadir, newid);
+
+    if(data_create(filename, newid, root) < 0) {
+        zdb_warnp(filename);
+        data_jump_cancel(root, newid, -1);
+        return -1;
+    }
+
+    if((fd = open(filename, O_RDWR | O_APPEND, 0600)) < 0) {
+        zdb_warnp(filename);
+        data_jump_cancel(root, newid, -1);
+    }
+
+    return fd;
+}
+
+// discard a file just created by data_jump_create
+void data_jump_cancel(data_root_t *root, fileid_t newid, int fd) {
+    char filename[ZDB_PATH_MAX];
+
+    snprintf(filename, ZDB_PATH_MAX, "%s/d%u", root->datadir, newid);
+    unlink(filename);
+
+    if(fd >= 0)
+        close(fd);
+}
+
 // jumping to the next id close the current data file
-// and open the next id file, it will create the new file
-size_t data_jump_next(data_root_t *root, fileid_t newid) {
+// and use the next id file, already created by data_jump_create
+size_t data_jump_next(data_root_t *root, fileid_t newid, int fd) {
     hook_t *hook = NULL;
 
     zdb_verbose("[+] data: jumping to the next file\n");
@@ -433,10 +469,10 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
 
     // moving to the next file
     root->dataid = newid;
+    root->datafd = fd;
     data_set_id(root);
 
-    data_initialize(root->datafile, root);
-    data_open_final(root);
+    zdb_verbose("[+] data: active file: %s\n", root->datafile);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->datafile);
diff --git a/libzdb/data.h b/libzdb/data.h
index 425706d..b6b4309 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -134,7 +134,9 @@
     data_header_t *data_descriptor_validate(data_header_t *header, data_root_t *root);
 
     void data_destroy(data_root_t *root);
-    size_t data_jump_next(data_root_t *root, fileid_t newid);
+    int data_jump_create(data_root_t *root, fileid_t newid);
+    void data_jump_cancel(data_root_t *root, fileid_t newid, int fd);
+    size_t data_jump_next(data_root_t *root, fileid_t newid, int fd);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
     void data_delete_files(char *datadir);
diff --git a/libzdb/index.c b/libzdb/index.c
index 4907386..b0ccb3e 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -335,15 +335,49 @@ char *index_dirty_list_generate(index_root_t *root) {
     return dirtylist;
 }
 
+// create the next index file, without touching the current one
+// returns the new file descriptor, or -1 if the file could not be created
+static int index_jump_create(index_root_t *root, fileid_t fileid) {
+    index_header_t header;
+    char filename[ZDB_PATH_MAX];
+    int fd;
+
+    index_set_id_buffer(filename, root->indexdir, fileid);
+
+    if((fd = open(filename, O_CREAT | O_RDWR | O_APPEND, 0600)) < 0) {
+        zdb_warnp(filename);
+        return -1;
+    }
+
+    if(!index_header_write(fd, fileid, root, &header)) {
+        zdb_warnp(filename);
+        unlink(filename);
+        close(fd);
+        return -1;
+    }
+
+    return fd;
+}
+
 // jumping to the next index id file, this needs to be in sync with the
 // data file, we only do this when datafile changes basicly, this is
 // triggered by a datafile too big event
+//
+// if the next file cannot be created, 0 is returned and the current
+// file stays the active one
 size_t index_jump_next(index_root_t *root) {
     hook_t *hook = NULL;
     char *dirtylist = NULL;
+    int nextfd;
 
     zdb_verbose("[+] index: jumping to the next file [closing %s]\n", root->indexfile);
 
+    // moving to the next file
+    uint64_t fileid = root->indexid + 1;
+
+    if((nextfd = index_jump_create(root, fileid)) < 0)
+        return 0;
+
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-index", 4);
         hook_append(hook, zdb_rootsettings.zdbid);
@@ -363,8 +397,6 @@ size_t index_jump_next(index_root_t *root) {
     zdb_verbose("[+] index: closing current index file\n");
     index_close(root);
 
-    // moving to the next file
-    uint64_t fileid = root->indexid + 1;
     root->nextid = 0;
 
     // do not reset root->previous
@@ -372,9 +404,10 @@ size_t index_jump_next(index_root_t *root) {
     // entry for RSCAN support
 
     index_set_id(root, fileid);
+    root->indexfd = nextfd;
+    root->updated = 0;
 
-    index_open_final(root);
-    index_initialize(root->indexfd, root->indexid, root);
+    zdb_verbose("[+] index: active file: %s\n", root->indexfile);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->indexfile);
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index a91b4ac..f4400be 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -83,17 +83,21 @@ static void index_dump_statistics(index_root_t *root) {
 // initialize an index file
 // this basicly create the header and write it
 //
+int index_header_write(int fd, fileid_t indexid, index_root_t *root, index_header_t *header) {
+    memcpy(header->magic, "IDX0", 4);
+    header->version = ZDB_IDXFILE_VERSION;
+    header->created = 0; // not used anymore to keep coherence
+    header->opened = 0;  // across replicat checksum
+    header->fileid = indexid;
+    header->mode = root->mode;
+
+    return index_write(fd, header, sizeof(index_header_t), root);
+}
+
 index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
     index_header_t header;
 
-    memcpy(header.magic, "IDX0", 4);
-    header.version = ZDB_IDXFILE_VERSION;
-    header.created = 0; // not used anymore to keep coherence
-    header.opened = 0;  // across replicat checksum
-    header.fileid = indexid;
-    header.mode = root->mode;
-
-    if(!index_write(fd, &header, sizeof(index_header_t), root))
+    if(!index_header_write(fd, indexid, root, &header))
         zdb_diep("index_initialize: write");
 
     // reset updated flag, this flag is used to notify
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 5f1fc68..2de9779 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -2,6 +2,7 @@
     #define __ZDB_INDEX_LOADER_H
 
     // initialize index header file
+    int index_header_write(int fd, fileid_t indexid, index_root_t *root, index_header_t *header);
     index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root);
 
     // initialize the whole index system
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 04c062d..d1d3e67 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -186,6 +186,26 @@ static void namespace_commit_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
+// jump to the next index and data files, both files are created before
+// leaving the current ones, if something goes wrong, the current files stay
+// the active ones and 1 is returned
+int namespace_jump(namespace_t *namespace) {
+    fileid_t nextid = namespace->index->indexid + 1;
+    int datafd;
+
+    if((datafd = data_jump_create(namespace->data, nextid)) < 0)
+        return 1;
+
+    if(index_jump_next(namespace->index) == 0) {
+        data_jump_cancel(namespace->data, nextid, datafd);
+        return 1;
+    }
+
+    data_jump_next(namespace->data, nextid, datafd);
+
+    return 0;
+}
+
 // update persistence data of a namespace
 // basically, this rewrites it's metadata on disk
 int namespace_commit(namespace_t *namespace) {
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 8cf7213..4e6b87d 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -78,6 +78,7 @@
 
     int namespace_create(char *name);
     int namespace_delete(namespace_t *namespace);
+    int namespace_jump(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 931ea73..86f519d 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -47,8 +47,8 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
     // only take care of next index id if it's not the first
     // doing it at the end to avoid creating an empty index
     // for non-existing data
-    if(fileid > 0)
-        index_jump_next(zdbindex);
+    if(fileid > 0 && index_jump_next(zdbindex) == 0)
+        return 1;
 
     return 0;
 }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..b4f0eb4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -589,8 +589,10 @@ int command_nsjump(redis_client_t *client) {
 
     zdbd_debug("[+] command: nsjump: forcing index and data jump\n");
 
-    size_t newid = index_jump_next(client->ns->index);
-    data_jump_next(client->ns->data, newid);
+    if(namespace_jump(client->ns)) {
+        redis_hardsend(client, "-Cannot create the next files right now");
+        return 1;
+    }
 
     redis_hardsend(client, "+OK");
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..2781b86 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -368,8 +368,10 @@ int command_set(redis_client_t *client) {
     zdb_settings_t *zdb_settings = zdb_settings_get();
 
     if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {
-        size_t newid = index_jump_next(client->ns->index);
-        data_jump_next(client->ns->data, newid);
+        if(namespace_jump(client->ns)) {
+            redis_hardsend(client, "-Cannot write data right now");
+            return 1;
+        }
     }
 
     size_t offset = redis_set_handlers[mode](client, entry);
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..a46df43 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1103,8 +1103,7 @@ void redis_files_rotate() {
 
         if(diffsec > zdbd_rootsettings.rotatesec) {
             zdbd_log("[+] system: rotation requested (%s, %ld seconds)\n", ns->name, diffsec);
-            size_t newid = index_jump_next(ns->index);
-            data_jump_next(ns->data, newid);
+            namespace_jump(ns);
         }
     }
 }
-- 
2.43.0


From 6cf79f22c3d0cd0e0f58b799dbcfa2b41d75b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 14/86] fix: discard entries which could not be fully written,
 report failed updates

---
 libzdb/data.c      |  7 +++++++
 libzdb/index.c     | 10 +++++-----
 libzdb/index_set.c | 34 +++++++++++++++++++++++++++++-----
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index fcb4a74..0fcdac8 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -624,6 +624,11 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 }
 
 
+// discard an entry which could not be fully written
+static void data_insert_discard(data_root_t *root, size_t offset) {
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data insert discard");
+}
 
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
@@ -650,6 +655,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
+        data_insert_discard(root, offset);
         free(header);
         return 0;
     }
@@ -658,6 +664,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
+        data_insert_discard(root, offset);
         return 0;
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index b0ccb3e..eea63ee 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -572,10 +572,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -594,7 +590,7 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags |= INDEX_ENTRY_DELETED;
 
     // rollback to point to the entry again
     zdb_debug("[+] index: delete: overwriting key\n");
@@ -609,6 +605,10 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index a5ee588..9cfff48 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -133,6 +133,15 @@ index_item_t *index_item_from_set(index_root_t *root, index_set_t *set) {
     return index_transition;
 }
 
+// discard everything written after an offset of the current index file
+// used to revert an append which could not be fully achieved
+static void index_append_discard(index_root_t *root, off_t offset, size_t previous) {
+    if(ftruncate(root->indexfd, offset) < 0)
+        zdb_warnp("index append discard");
+
+    root->previous = previous;
+}
+
 int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     index_entry_t *entry = set->entry;
     off_t curoffset = lseek(root->indexfd, 0, SEEK_END);
@@ -147,19 +156,22 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
+        // discard what could be partially written
+        index_append_discard(root, curoffset, root->previous);
+
         // it's easier to flag the entry as deleted than
         // removing it from the list
         entry->flags |= INDEX_ENTRY_DELETED;
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
@@ -306,6 +318,8 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     set->entry->parentid = previous->indexid;
     set->entry->parentoff = previous->idxoffset;
 
+    size_t lastoffset = root->previous;
+
     // append the new entry on the disk first, if this fails (or if we are
     // interrupted here), the previous entry is still there and valid
     if(index_append_entry_on_disk(root, set)) {
@@ -314,7 +328,10 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     }
 
     zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
+    if(index_entry_delete_disk(root, previous)) {
+        index_append_discard(root, set->entry->idxoffset, lastoffset);
+        return NULL;
+    }
 
     // update memory state
     return index_update_memory_handler_memkey(root, set, previous);
@@ -328,6 +345,8 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // as reference to update the first one, to keep history and so one
     previous->flags |= INDEX_ENTRY_DELETED;
 
+    size_t lastoffset = root->previous;
+
     index_set_t updated = {
         .entry = previous,
         .id = set->id,
@@ -342,7 +361,12 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
+
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite original entry\n");
+        index_append_discard(root, previous->idxoffset, lastoffset);
+        return NULL;
+    }
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
-- 
2.43.0


From 84db586db030b39ff9b826a5441de76b3b112f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 15/86] fix: a write which could not be synced when requested
 is not a success

---
 libzdb/data.c  | 12 +++++++++---
 libzdb/index.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 0fcdac8..dc1324a 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -33,7 +33,13 @@ static void data_entry_header_dump(data_entry_header_t *entry) {
 
 // force to sync the data buffer into the underlaying device
 static inline int data_sync(data_root_t *root, int fd) {
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        zdb_warnp("data sync");
+        root->stats.errors += 1;
+        root->stats.lasterr = time(NULL);
+        return -1;
+    }
+
     root->lastsync = time(NULL);
     return 1;
 }
@@ -95,8 +101,8 @@ static int data_write(int fd, void *buffer, size_t length, int syncer, data_root
     // update statistics
     zdb_rootsettings.stats.datadiskwrite += length;
 
-    if(syncer)
-        data_sync_check(root, fd);
+    if(syncer && data_sync_check(root, fd) < 0)
+        return 0;
 
     return 1;
 }
diff --git a/libzdb/index.c b/libzdb/index.c
index eea63ee..8396c26 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -63,7 +63,12 @@ void index_io_error(index_root_t *root) {
 
 // force index to be sync'd with underlaying device
 static inline int index_sync(index_root_t *root, int fd) {
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        zdb_warnp("index sync");
+        index_io_error(root);
+        return -1;
+    }
+
     root->lastsync = time(NULL);
     return 1;
 }
@@ -123,7 +128,8 @@ int index_write(int fd, void *buffer, size_t length, index_root_t *root) {
     zdb_rootsettings.stats.idxdiskwrite += length;
 
     // flush disk if needed
-    index_sync_check(root, fd);
+    if(index_sync_check(root, fd) < 0)
+        return 0;
 
     return 1;
 }
-- 
2.43.0


From a59e4f69553897ac2baeb19f78ff10bce3583674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 16/86] fix: index loader, only recreate an index file which is
 really too short

---
 libzdb/index_loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f4400be..f6dc508 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -198,7 +198,7 @@ static size_t index_load_file(index_root_t *root) {
         // FIXME: replace this with helper
         //
 
-        if(length < 0) {
+        if(length < 0 || lseek(root->indexfd, 0, SEEK_END) >= (off_t) sizeof(index_header_t)) {
             // read failed, probably caused by a system error
             // this is probably an unrecoverable issue, let's skip this
             // index file (this could break consistancy)
-- 
2.43.0


From 8d998615b466b5820db9ad0b7dfc9e6a155715de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 17/86] fix: NSSET, report an error when the settings could not
 be saved

---
 zdbd/commands_namespace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index b4f0eb4..d361d95 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -574,7 +574,10 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    if(namespace_commit(namespace)) {
+        redis_hardsend(client, "-Cannot save namespace settings right now");
+        return 1;
+    }
 
     // confirmation
     redis_hardsend(client, "+OK");
-- 
2.43.0


From cfd1c5376962eb834609ebf35ba30e9614f05ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 18/86] fix: namespace creation, do not accept a partially
 written descriptor

---
 libzdb/namespace.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index d1d3e67..8bface4 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -137,9 +137,14 @@ static int namespace_descriptor_load(namespace_t *namespace) {
         // probably new file, let's write initial namespace information
         // (from the beginning, creation could have been interrupted)
         lseek(fd, 0, SEEK_SET);
-        namespace_descriptor_update(namespace, fd);
+        int errors = namespace_descriptor_update(namespace, fd);
+
+        // do not let a partial descriptor
+        if(errors && ftruncate(fd, 0) < 0)
+            zdb_warnp("namespace descriptor truncate");
+
         close(fd);
-        return 0;
+        return errors ? -1 : 0;
     }
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
-- 
2.43.0


From cf7517f1af3544a9ed154366e4c4697546944a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 19/86] fix: passwords, compare the exact bytes received

---
 zdbd/auth.c               |  6 ++----
 zdbd/commands_namespace.c | 12 ++++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..ef1a597 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,8 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    // compare the exact bytes received: input can contain null bytes
+    if(length == (int) strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index d361d95..9192324 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,15 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
-
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(request->argv[2]->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
+                // ensure we check the exact password
+                resp_object_t *user = request->argv[2];
 
-                if(strcmp(password, namespace->password) != 0) {
+                if(zdbd_password_check(user->buffer, user->length, namespace->password) == 0) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From 2b159f778b34cba0da02b2f4a0ff295a4cea3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 20/86] fix: SELECT SECURE, use a challenge only once

---
 zdbd/commands_namespace.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 9192324..7336dfb 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -210,16 +210,19 @@ int command_select(redis_client_t *client) {
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
                 resp_object_t *user = request->argv[3];
+                int granted = zdbd_password_check(user->buffer, user->length, expected);
 
-                if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
-                    free(expected);
+                // a challenge can only be used once, free and reset nonce
+                free(expected);
+                free(client->nonce);
+                client->nonce = NULL;
+
+                if(granted == 0) {
                     zdbd_debug("[-] namespace: auth: secure authentication denied\n");
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
 
-                free(expected);
-
                 // nothing to do, granted
             }
 
-- 
2.43.0


From 6adfe38245fb0eef1dab8e1de12fe69079cd7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 21/86] fix: FLUSH, remove the index and data files of the
 namespace

---
 libzdb/filesystem.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..86743ac 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,21 +70,22 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+// check if filename is a payload file: index (i0, i1, ...) or data (d0, d1, ...)
+static int dir_payload_file(const char *name) {
+    if(name[0] != 'i' && name[0] != 'd')
+        return 0;
+
+    return name[1] != '\0' && strspn(name + 1, "0123456789") == strlen(name + 1);
+}
+
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
-    char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
 
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    if(tflag == FTW_F && dir_payload_file(fpath + ftwbuf->base)) {
+        zdb_debug("[+] filesystem: removing payload file: %s\n", fpath);
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
-        unlink(fullpath);
+        if(unlink(fpath))
+            zdb_warnp(fpath);
     }
 
     return 0;
-- 
2.43.0


From debcae857ee0d741765d2dd6b0caaa7ea5201b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 22/86] fix: FLUSH, keep the mode of the namespace

---
 libzdb/namespace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 8bface4..2528b26 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -691,6 +691,7 @@ int namespace_flush(namespace_t *namespace) {
 
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
+    index_mode_t mode = namespace->index->mode;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
@@ -703,6 +704,13 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // the mode was saved in the index files, keep it
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
-- 
2.43.0


From 48701dd202aff28b900ca5b3835a404a3453a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 23/86] fix: FLUSH, refused on read-only, locked, frozen and
 worm namespaces

---
 zdbd/commands_namespace.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 7336dfb..62ea6dd 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -651,6 +651,25 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    if(!client->writable) {
+        zdbd_debug("[-] command: flush: denied, read-only namespace\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    // flushing removes existing keys
+    if(namespace->worm) {
+        zdbd_debug("[-] command: flush: denied, namespace in worm mode\n");
+        redis_hardsend(client, "-Namespace is protected by worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From b01a77a18d1450493bd2cb643183e6fe3f2c4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 24/86] fix: KSCAN, refused on a frozen namespace

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..1f7c0cb 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -466,6 +466,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From 1aee384abfefa51dc79c764c1b0e3f127bf24dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 25/86] fix: DATA RAW, return entries with an empty payload and
 deleted entries

---
 libzdb/data.c          |  3 ++-
 zdbd/commands_system.c | 21 ++++++++-------------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index dc1324a..a3d5e6e 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -374,8 +374,9 @@ data_raw_t data_raw_get_real(int fd, off_t offset) {
     }
 
     if(raw.header.flags & DATA_ENTRY_DELETED) {
+        // this entry has no payload
         zdb_debug("[+] data: raw: entry deleted\n");
-        return data_raw_error(raw);
+        return raw;
     }
 
     zdb_debug("[+] data: raw: fetching payload from header offset\n");
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..bc8de05 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -281,19 +281,14 @@ static int command_data_raw(redis_client_t *client) {
         return 1;
     }
 
-    if(raw.header.datalength == 0 || raw.header.datalength != raw.payload.length) {
-        if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
-            // something went wrong when fetching data from file
-            zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
-            free(raw.payload.buffer);
-            free(raw.id);
-
-            redis_hardsend(client, "-Invalid Request");
-            return 0;
-        }
+    if(raw.id == NULL) {
+        // data file could not be opened, nothing was read
+        zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
+        redis_hardsend(client, "-Invalid Request");
+        return 0;
     }
 
-    size_t allocate = raw.header.datalength + raw.header.idlength + 512;
+    size_t allocate = raw.payload.length + raw.header.idlength + 512;
 
     if(!(response = calloc(sizeof(char), allocate))) {
         zdbd_warnp("data: raw: calloc");
@@ -322,10 +317,10 @@ static int command_data_raw(redis_client_t *client) {
     length += sprintf(response + length, ":%u\r\n", raw.header.flags);
     length += sprintf(response + length, ":%u\r\n", raw.header.timestamp);
 
-    if(raw.payload.length > 0) {
+    if(raw.payload.buffer) {
         length += sprintf(response + length, "$%lu\r\n", raw.payload.length);
         memcpy(response + length, raw.payload.buffer, raw.payload.length);
-        length += raw.header.datalength;
+        length += raw.payload.length;
         length += sprintf(response + length, "\r\n");
 
     } else {
-- 
2.43.0


From bedd858e557ae52c85bb979596a52f1a37779463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 26/86] fix: HISTORY, report an index entry which cannot be
 read

---
 zdbd/commands_history.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..b7dc6f8 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -101,6 +101,13 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     data_root_t *data = client->ns->data;
     history_response_t response;
 
+    // entry could not be read from index
+    if(!item) {
+        zdb_log("[-] command: history: cannot read index entry\n");
+        redis_hardsend(client, "-Internal Error");
+        return 0;
+    }
+
     // dump entry found
     index_item_header_dump(item);
 
@@ -111,6 +118,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
         free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
-- 
2.43.0


From 57683089cf34037b28af9f87fb9f17e49db32356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 27/86] fix: protocol, refuse negative lengths and don't read
 after the end of a line

---
 zdbd/redis.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a46df43..25aa4ea 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -402,6 +402,24 @@ static void redis_free_request(resp_request_t *request) {
     request->argv = NULL;
 }
 
+// read the number found in a request line, without reading
+// anything after the end of the line
+static int redis_handle_resp_number(char *begin, char *end) {
+    int64_t value = 0;
+    int negative = 0;
+
+    if(begin < end && *begin == '-') {
+        negative = 1;
+        begin += 1;
+    }
+
+    for(; begin < end && *begin >= '0' && *begin <= '9'; begin++)
+        if((value = (value * 10) + (*begin - '0')) > INT32_MAX)
+            value = INT32_MAX;
+
+    return negative ? -value : value;
+}
+
 static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
@@ -432,9 +450,15 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     }
 
     // reading the amount of arguments
-    request->argc = atoi(buffer->reader + 1);
+    request->argc = redis_handle_resp_number(buffer->reader + 1, match);
     zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
 
+    if(request->argc < 0) {
+        request->argc = 0;
+        resp_discard(client, "Malformed request, invalid arguments count");
+        return RESP_STATUS_DISCARD;
+    }
+
     if(request->argc == 0) {
         resp_discard(client, "Missing arguments");
         return RESP_STATUS_ABNORMAL;
@@ -506,10 +530,15 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     resp_object_t *argument = request->argv[request->fillin];
 
     // reading the length of the array
-    argument->length = atoi(buffer->reader + 1);
+    argument->length = redis_handle_resp_number(buffer->reader + 1, match);
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
+    if(argument->length < 0) {
+        resp_discard(client, "Malformed query string");
+        return RESP_STATUS_DISCARD;
+    }
+
     if(argument->length > REDIS_MAX_PAYLOAD) {
         resp_discard(client, "Payload too big");
         return RESP_STATUS_DISCARD;
-- 
2.43.0


From 983039a6384de773cb418322970f992bf8bc2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 28/86] fix: protocol, don't execute requests following a
 discard or a shutdown

---
 zdbd/redis.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 25aa4ea..7884db5 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -814,6 +814,11 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // this client (or the server) is about to be closed,
+            // ignoring any following request
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
-- 
2.43.0


From 959b73a032a6a5b6bb2e25b6dc8e075ed36817db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 29/86] fix: protocol, don't forget data left on the socket
 when the buffer was full

---
 zdbd/redis.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7884db5..3753420 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -712,6 +712,7 @@ resp_status_t redis_chunk_read(int fd) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
     ssize_t length;
+    size_t requested;
 
     // default return value
     int value = RESP_STATUS_SUCCESS;
@@ -724,7 +725,8 @@ go_again:
     }
 
     pzdbd_debug("[+] redis: perform read on the socket\n");
-    if((length = recv(fd, buffer->writer, buffer->remain, 0)) < 0) {
+    requested = buffer->remain;
+    if((length = recv(fd, buffer->writer, requested, 0)) < 0) {
         if(errno != EAGAIN && errno != EWOULDBLOCK) {
             zdbd_warnp("client recv");
             return RESP_STATUS_ABNORMAL;
@@ -840,6 +842,13 @@ go_again:
         goto go_again;
     }
 
+    // buffer was filled completely, there is maybe more data available
+    // on the socket and we won't be notified again for them
+    if((size_t) length == requested) {
+        pzdbd_debug("[+] redis: buffer was full, checking for more data\n");
+        goto go_again;
+    }
+
     // success
     pzdbd_debug("[+] redis: socket parsing succeed\n");
     return RESP_STATUS_SUCCESS;
-- 
2.43.0


From fcd6227739fb883de752871c821ee427b8fe861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 30/86] fix: mirror, set the owner of requests made by regular
 clients

---
 zdbd/redis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 3753420..f0aafe0 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -635,7 +635,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_instanceid_get();
         return 0;
     }
 
-- 
2.43.0


From d20b9714c8963592bc62c320d0243629ce4ef6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 31/86] fix: replication, refuse a request which only contains
 an owner id

---
 zdbd/redis.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index f0aafe0..d60510b 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -639,6 +639,13 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
         return 0;
     }
 
+    // the owner id is expected after the command
+    if(client->request->argc < 2) {
+        zdbd_debug("[-] redis: owner check: missing owner id, dropping\n");
+        redis_hardsend(client, "-Missing owner id");
+        return 1;
+    }
+
     // this comes from a replication client
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
-- 
2.43.0


From f2d7b847b0b23c3518c93db583b34c4bde3535d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 32/86] fix: mirror and wait, nothing is executed for a client
 without namespace

---
 zdbd/commands.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..33313ad 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -169,6 +169,7 @@ int redis_dispatcher(redis_client_t *client) {
     // is not available anymore and we disconnect it
     if(client->ns == NULL) {
         zdbd_debug("[-] command: request fd: %d, no namespace, disconnecting.\n", client->fd);
+        client->executed = NULL;
         redis_hardsend(client, "-Your active namespace is not available anymore (probably removed).");
         return RESP_STATUS_DISCARD;
     }
-- 
2.43.0


From 800c6aaa3d82a537e9811422d3e4b0f9c09bbaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 33/86] fix: free pending responses of a closed client

---
 zdbd/redis.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index d60510b..6b61f2b 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -975,6 +975,13 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // discard responses not sent yet
+    for(redis_response_t *response = client->responses; response; ) {
+        redis_response_t *next = response->next;
+        redis_response_free(response);
+        response = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From 79c46e88f83e4d86c587394e824092fb920178de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 34/86] fix: namespaces, refuse an empty name (name starting
 with a null byte)

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 2528b26..cb43dba 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -422,6 +422,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // without name, this is the root directory of all the namespaces
+    if(strlen(name) == 0)
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
-- 
2.43.0


From 6abdbd8b61e9f818dbf8e548b53183046841371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 35/86] fix: replication, answer an error when the owner id is
 too long

---
 zdbd/redis.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 6b61f2b..d3d7ec7 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -652,6 +652,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     resp_object_t *ownobj = client->request->argv[client->request->argc - 1];
     if(ownobj->length > 32) {
         zdbd_debug("[-] redis: owner check: malformed owner, id is too long, dropping\n");
+        redis_hardsend(client, "-Malformed owner id");
         return 1;
     }
 
-- 
2.43.0


From c225b3d13aa27926cf168c03ff5cc2546d644eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 36/86] fix: index, refuse a cursor whose key length does not
 match its entry

---
 libzdb/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 8396c26..cf392ce 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -677,7 +677,7 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    if(item->idlength != key->idlength || item->length != key->length || item->crc != key->crc) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From c144e482b2c62a31dfd73ae25c568d54f8d406da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 37/86] fix: integrity-check, accept the file names used for
 data files (d0, d1, ...)

---
 tools/integrity-check/integrity-check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..08249cd 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -127,12 +127,12 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    if(strncmp(datafile, "d", 1)) {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
+    fileid_t dataid = atoi(datafile + 1);
 
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
-- 
2.43.0


From b4d079081b88b320f8f817f3d7bf8f708aa6cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 38/86] fix: integrity-check, exit status with a multiple of
 256 errors

---
 tools/integrity-check/integrity-check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 08249cd..57c04a0 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -162,6 +162,7 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    // the exit status only keeps the lower 8 bits
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 21607bb330914afc9ad0fea499ff3685fa1dd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 39/86] fix: integrity-check, verify the checksum of empty
 payloads

---
 tools/integrity-check/integrity-check.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 57c04a0..aaef673 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -78,10 +78,8 @@ int data_integrity(data_root_t *zdbdata) {
         printf("[+]   entry key      : ");
         zdb_tools_hexdump(entry->id, entry->idlength);
 
-        if(entry->datalength == 0)
-            continue;
-
-        if(!(buffer = realloc(buffer, entry->datalength)))
+        // an empty payload still have a checksum
+        if(entry->datalength > 0 && !(buffer = realloc(buffer, entry->datalength)))
             zdb_diep("realloc");
 
         if(read(zdbdata->datafd, buffer, entry->datalength) != entry->datalength)
-- 
2.43.0


From fcc4b17d44dde88318829251d7ccafea6f2a7631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 40/86] fix: arguments of 256 bytes overflow the command
 buffers by one byte

The buffers hold COMMAND_MAXLEN bytes including the terminator, so the
longest argument which can be copied there is one byte shorter.
---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 62ea6dd..6646791 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -505,7 +505,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index bc8de05..d4bc06a 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -186,7 +186,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -237,7 +237,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -344,7 +344,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From 83e8d93e9ad42414fbe11cc9ba7b6264f4c17503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 41/86] fix: SCAN and RSCAN answered 'No more data' in the
 middle of the keys

When the time slice was already elapsed (or the clock went backward)
before the first entry was fetched, the list stayed empty and the client
was told that the enumeration was over.
---
 zdbd/commands_scan.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 1f7c0cb..c6e544c 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -246,7 +246,9 @@ int command_scan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always fetching at least one entry, an empty list means
+    // there is no more data (even if the slice already elapsed)
+    do {
         zdbd_debug("[+] scan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -261,7 +263,8 @@ int command_scan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
@@ -303,7 +306,9 @@ int command_rscan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always fetching at least one entry, an empty list means
+    // there is no more data (even if the slice already elapsed)
+    do {
         zdbd_debug("[+] rscan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -318,7 +323,8 @@ int command_rscan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
-- 
2.43.0


From 70cc7cb9a42d75415fa50788e18bc8f221531093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 42/86] fix: SCAN and RSCAN showed timestamps after 2038 as
 negative numbers

---
 zdbd/commands_scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index c6e544c..17296c8 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -145,7 +145,7 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%u\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
-- 
2.43.0


From 954b30f7bc448e8f8565fc2a21360a0de93b49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 43/86] fix: running hooks keep the lock of the directories and
 the sockets open

A hook process inherited the lock files, the listening sockets and the
sockets of the clients. As long as it runs, the server could not be
started again on the same directories or port, even when stopped
cleanly, and connections closed by the server stayed open.
---
 libzdb/bootstrap.c | 3 ++-
 zdbd/redis.c       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..c6d2619 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -74,7 +74,8 @@ static int zdb_lock(char *lockpath) {
 
     zdb_debug("[+] bootstrap: checking lockfile: %s\n", lockpath);
 
-    if((fd = open(lockpath, O_CREAT | O_RDONLY, 0664)) < 0) {
+    // a hook still running after us must not keep the lock
+    if((fd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0664)) < 0) {
         zdb_warnp(lockpath);
         return -1;
     }
diff --git a/zdbd/redis.c b/zdbd/redis.c
index d3d7ec7..c764f12 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -869,6 +869,9 @@ void socket_nonblock(int fd) {
         zdbd_diep("fcntl");
 
     fcntl(fd, F_SETFL, flags | O_NONBLOCK);
+
+    // hooks executed don't have to keep our sockets open
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
 }
 
 void socket_keepalive(int fd) {
-- 
2.43.0


From 8b7634445e8cfb1ec58b17a3b24b8100668cf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 44/86] fix: an adopted process terminating crashes the hooks
 cleanup

waitpid(-1) also returns processes which are not hooks, when the server
is the first process of a container: no hook matches and the lookup
dereferences an empty slot. Only hooks are counted as pending.
---
 libzdb/hook.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..b57552c 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -220,19 +220,22 @@ void libzdb_hooks_cleanup() {
     while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
         zdb_debug("[+] hooks: pid %d terminated, status: %d\n", pid, WEXITSTATUS(status));
 
-        // one child terminated
-        if(WIFEXITED(status) || WIFSIGNALED(status)) {
-            zdb_rootsettings.stats.childwait -= 1;
-        }
-
-        // looking for matching hook
+        // looking for matching hook, this can be any other process
+        // if we adopted it (eg: we are the first process of a container)
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
+            // empty slot
+            if(hook == NULL)
+                continue;
+
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
                 hook->status = WEXITSTATUS(status);
+
+                // one child terminated
+                zdb_rootsettings.stats.childwait -= 1;
                 break;
             }
         }
-- 
2.43.0


From 87324165cc504406be15b8d918a05c0e5cc219e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 45/86] fix: a hook which cannot be executed is waited for

When fork failed, waiting for process 0 reaped (or waited for) any other
running hook, and the status returned was not initialized: the server
could start without a successful ready hook. The pending hooks counter
was decremented as well.
---
 libzdb/hook.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index b57552c..b660fae 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -152,8 +152,18 @@ int hook_execute_wait(hook_t *hook) {
     child = hook_execute(hook);
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
-    if(waitpid(child, &status, 0) < 0)
+    // nothing were executed, there is nothing to wait for
+    if(child == 0) {
+        hook->finished = time(NULL);
+        hook->status = EXIT_FAILURE;
+
+        return hook->status;
+    }
+
+    if(waitpid(child, &status, 0) < 0) {
         zdb_warnp("waitpid");
+        status = EXIT_FAILURE << 8;
+    }
 
     hook->finished = time(NULL);
     hook->status = WEXITSTATUS(status);
-- 
2.43.0


From 5195fff077b7911082e5bc2eec786a19ca0ca1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 46/86] fix: long hook arguments overflow the response of HOOKS

The response was allocated for 1 KB per hook, the list of dirty index
files alone can be far longer.
---
 zdbd/commands_system.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index d4bc06a..49ab8e9 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,7 +132,20 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // arguments have no fixed length (paths, dirty index list)
+    size_t allocate = 1024;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        allocate += 256;
+
+        for(size_t s = 1; s < hook->argc - 1; s++)
+            allocate += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), allocate)))
         return 1;
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
-- 
2.43.0


From 53182af58b1a997282171de9f74fa3354058901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 47/86] fix: a mixed server with a sequential default namespace
 crashed when stopped

---
 libzdb/namespace.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index cb43dba..c91882f 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -567,14 +567,13 @@ void namespace_free(namespace_t *namespace) {
 // this is called when we receive a graceful exit request
 // let's clean all indices, data and namespace arrays
 int namespaces_destroy() {
-    // freeing the big index buffer
-    // since branches want an index as argument, let's use
-    // the first namespace (default), since they all share
-    // the same buffer
+    // freeing the big index buffer, shared by all the namespaces
+    // (in mixed mode, the default namespace can be in sequential
+    // mode and not linked to this buffer)
     if(nsroot->branches) {
         zdb_debug("[+] namespaces: cleaning branches\n");
         for(uint32_t b = 0; b < buckets_branches; b++)
-            index_branch_free(nsroot->namespaces[0]->index->branches, b);
+            index_branch_free(nsroot->branches, b);
 
         // freeing the big index array
         free(nsroot->branches);
-- 
2.43.0


From 9222c31016ced99b43dfe3098e33b523225170e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 48/86] fix: library accepted keys which cannot be stored and
 mistook them for others

---
 libzdb/api.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 73d7621..de72eae 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -106,6 +106,12 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 // api
 //
 
+// the length of a key is stored on one byte, a longer key would be
+// mistaken for the key made of its first bytes
+static int api_key_invalid(size_t ksize) {
+    return ksize > (MAX_KEY_LENGTH);
+}
+
 // checksum match is not enough to know if data are the same
 static int api_payload_matching(namespace_t *ns, index_entry_t *existing, void *payload, size_t psize, uint32_t crc) {
     if(existing->crc != crc || existing->length != psize)
@@ -287,6 +293,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(api_key_invalid(ksize))
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -330,6 +339,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
 zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
+    if(api_key_invalid(ksize))
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     // fetching index entry for this key
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
@@ -365,6 +377,9 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
+    if(api_key_invalid(ksize))
+        return zdb_api_reply(ZDB_API_FALSE, NULL);
+
     index_entry_t *entry = index_get(ns->index, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
@@ -382,6 +397,9 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
+    if(api_key_invalid(ksize))
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     index_entry_t *entry = index_get(ns->index, key, ksize);
 
     // key not found at all
@@ -407,6 +425,9 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
 zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
+    if(api_key_invalid(ksize))
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     // grabbing original entry
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
-- 
2.43.0


From ea53747815b52a8c173f18fa26702f0c51e99c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 49/86] fix: library reported unreadable data as valid

---
 libzdb/api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index de72eae..60ac9f6 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -419,6 +419,11 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+
+    // data could not be read, nothing is known about them
+    if(status < 0)
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
-- 
2.43.0


From bf4fb828beecb9171264b5fd9472268f44f36953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 50/86] fix: library crashed when a hook was set without an
 instance id

---
 libzdb/data.c  | 4 ++--
 libzdb/index.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index a3d5e6e..37bbcce 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -123,7 +123,7 @@ int data_open_notfound_hook(char *filename) {
     zdb_debug("[+] data: trying to fetch missing datafile: %s\n", filename);
 
     hook = hook_new("missing-data", 2);
-    hook_append(hook, zdb_rootsettings.zdbid);
+    hook_append(hook, zdb_id());
     hook_append(hook, filename);
     retval = hook_execute_wait(hook);
 
@@ -460,7 +460,7 @@ size_t data_jump_next(data_root_t *root, fileid_t newid, int fd) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-data", 3);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_id());
         hook_append(hook, root->datafile);
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index cf392ce..9176973 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -386,7 +386,7 @@ size_t index_jump_next(index_root_t *root) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-index", 4);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_id());
         hook_append(hook, root->indexfile);
 
         // generate dirty list string
-- 
2.43.0


From b9c1a1d52fb6c4c770d6bec16a851ea479e6b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 51/86] fix: HISTORY, refuse a cursor of another key and keys
 too long to exist

---
 zdbd/commands_history.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index b7dc6f8..c105ba9 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -160,6 +160,12 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: history: invalid key size\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
@@ -219,7 +225,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
-- 
2.43.0


From bb1df65ca513af3e6d70d81dd902698fffd4b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 52/86] fix: KEYCUR, refuse keys too long to exist instead of
 truncating them

---
 zdbd/commands_scan.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 17296c8..678c7ab 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -345,6 +345,12 @@ int command_keycur(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: keycur: invalid key size\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
-- 
2.43.0


From 88a2cb025722a23777544aace8124f03a95c08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 53/86] fix: SET, free the stored payload compared with the new
 one

---
 zdbd/commands_set.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 2781b86..9e93992 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int match = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(match)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return match;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
-- 
2.43.0


From e78c86a38ce2b9602ca3c8c160d988807e3a7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 54/86] fix: index-rebuild crashed on the deletion of a key
 already deleted

---
 tools/index-rebuild/index-rebuild.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 86f519d..e803417 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -105,7 +105,9 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
         if(entry->flags & DATA_ENTRY_DELETED) {
-            if(index_entry_delete(zdbindex, existing)) {
+            // the key can already be deleted: if a deletion was interrupted
+            // (or refused), it's present more than once on the data file
+            if(existing && index_entry_delete(zdbindex, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not delete index item\n");
                 return -1;
             }
-- 
2.43.0


From 134296ac731a160e02463992fafc2248579bd79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 55/86] fix: an entry interrupted by a crash made the next ones
 unreadable without index

---
 libzdb/data.c         | 38 ++++++++++++++++++++++++++++++++------
 libzdb/data.h         |  2 +-
 libzdb/index.h        |  2 ++
 libzdb/index_loader.c |  6 ++++++
 libzdb/namespace.c    |  5 ++++-
 5 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 37bbcce..77af0e4 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -289,7 +289,8 @@ static void data_set_id(data_root_t *root) {
     sprintf(root->datafile, "%s/d%u", root->datadir, root->dataid);
 }
 
-static void data_open_final(data_root_t *root) {
+// the known offset is the last one used by the index on that file
+static void data_open_final(data_root_t *root, off_t known) {
     // try to open the datafile in write mode to append new data
     if((root->datafd = open(root->datafile, O_CREAT | O_RDWR | O_APPEND, 0600)) < 0) {
         // maybe we are on a read-only filesystem
@@ -304,21 +305,46 @@ static void data_open_final(data_root_t *root) {
     }
 
     // jumping to the first entry
-    lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
+    off_t length = lseek(root->datafd, 0, SEEK_END);
+    off_t offset = lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
 
     // reading all indexes to find where is the last one
     data_entry_header_t header;
+    off_t next = offset;
     int entries = 0;
 
     zdb_debug("[+] data: reading file, finding last entry\n");
 
     while(read(root->datafd, &header, sizeof(data_entry_header_t)) == sizeof(data_entry_header_t)) {
-        root->previous = lseek(root->datafd, 0, SEEK_CUR) - sizeof(data_entry_header_t);
-        lseek(root->datafd, header.datalength + header.idlength, SEEK_CUR);
+        next = offset + sizeof(data_entry_header_t) + header.idlength + header.datalength;
+
+        // this entry was not completely written
+        if(header.idlength == 0 || next > length)
+            break;
+
+        root->previous = offset;
+        offset = lseek(root->datafd, next, SEEK_SET);
 
         entries += 1;
     }
 
+    // checking if there is something else after the last entry: an entry
+    // without enough bytes for its header or for its contents
+    int incomplete = (offset + (off_t) sizeof(data_entry_header_t) > length) || (next != offset);
+
+    // the last entry is incomplete (write was interrupted), this entry was
+    // never acknowledged, discarding it otherwise next entries would be
+    // appended after this garbage and couldn't be found without index anymore
+    //
+    // if the index knows something there, this is not an interrupted write
+    // but a corruption, let's keep everything
+    if(offset < length && incomplete && offset > known) {
+        zdb_warning("[-] data: incomplete entry at the end of: %s", root->datafile);
+
+        if(ftruncate(root->datafd, offset) < 0)
+            zdb_warnp(root->datafile);
+    }
+
     zdb_debug("[+] data: entries read: %d, last offset: %lu\n", entries, root->previous);
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
 }
@@ -755,14 +781,14 @@ data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t d
     return root;
 }
 
-data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid) {
+data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid, off_t known) {
     data_root_t *root = data_init_lazy(settings, datapath, dataid);
 
     // opening the file and creating it if needed
     data_initialize(root->datafile, root);
 
     // opening the final file for appending only
-    data_open_final(root);
+    data_open_final(root, known);
 
     return root;
 }
diff --git a/libzdb/data.h b/libzdb/data.h
index b6b4309..1cf4db9 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -126,7 +126,7 @@
 
     } data_request_t;
 
-    data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid);
+    data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid, off_t known);
     data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t dataid);
     int data_open_id_mode(data_root_t *root, fileid_t id, int mode);
 
diff --git a/libzdb/index.h b/libzdb/index.h
index 138622c..481c7cd 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -210,6 +210,8 @@
         // for 16384 index files, this would consume 2048 bytes
 
         size_t previous;    // keep latest offset inserted to the indexfile
+        fileid_t lastdataid; // last data file and
+        off_t lastdata;      // last offset on it, known when loaded
 
     } index_root_t;
 
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f6dc508..89370d0 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -379,6 +379,12 @@ static size_t index_load_file(index_root_t *root) {
         if(index_entry_is_deleted(fresh))
             index_entry_delete_memory(root, fresh);
 
+        // keep the last location used on the data files
+        if(entry->dataid > root->lastdataid || (entry->dataid == root->lastdataid && entry->offset > root->lastdata)) {
+            root->lastdataid = entry->dataid;
+            root->lastdata = entry->offset;
+        }
+
         // set the previous pointing to this entry
         // this is the last one we added
         root->previous = seeker - filebuf;
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index c91882f..b54bb8f 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -285,7 +285,10 @@ static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     // now, we are sure the namespace exists, but it could be empty
     // let's call index and data initializer, they will take care of that
     namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches);
-    namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid);
+
+    // last offset used by the index on the current data file
+    off_t known = (namespace->index->lastdataid == namespace->index->indexid) ? namespace->index->lastdata : 0;
+    namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid, known);
 
     return 0;
 }
-- 
2.43.0


From c123afb4a30bf7070424c0a13b2c5f894176adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 56/86] fix: the former password of a namespace was never
 released

---
 zdbd/commands_namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 6646791..9072ddc 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -401,6 +401,7 @@ static int command_nsset_password(namespace_t *namespace, char *value) {
 
     } else {
         // updating password
+        free(namespace->password);
         namespace->password = strdup(value);
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
-- 
2.43.0


From d74296991eec35eab7d47dfd72c1661df86f863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 57/86] fix: a namespace whose directories cannot be created
 was never released

---
 libzdb/namespace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index b54bb8f..026a449 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -318,8 +318,10 @@ namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
     namespace->version = NAMESPACE_CURRENT_VERSION; // set current version before reading descriptor
 
     if(ensure) {
-        if(!namespace_ensure(namespace))
+        if(!namespace_ensure(namespace)) {
+            namespace_free(namespace);
             return NULL;
+        }
     }
 
     // load descriptor from disk
-- 
2.43.0


From 06892eb323b1d0192ee9af286450efbdebb403d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 58/86] fix: a hook which could not be started was kept as
 running forever

---
 libzdb/hook.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index b660fae..5ad8214 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -126,6 +126,11 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // nothing will ever be reported for this hook, it's
+            // already over, otherwise it would never expire
+            hook->finished = time(NULL);
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
-- 
2.43.0


From 672c19a208b3300ebb85a36dc8df38640f449eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 59/86] fix: hooks already over were never released while
 another one was running

---
 libzdb/hook.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 5ad8214..9efcbba 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -217,18 +217,18 @@ void libzdb_hooks_cleanup() {
     if(!zdb_rootsettings.hook)
         return;
 
+    // no hooks active at all, nothing to do
+    if(hooks->active == 0)
+        return;
+
+    // there are some active hooks on the list
+    // let's see if any of them expired and needs
+    // some cleanup, even if some others never finish
+    hook_expired_cleanup(hooks);
+
     // no pending child
-    if(zdb_rootsettings.stats.childwait == 0) {
-        // no hooks active at all, nothing to do
-        if(hooks->active == 0)
-            return;
-
-        // there are some active hooks on the list
-        // let's see if any of them expired and needs
-        // some cleanup
-        hook_expired_cleanup(hooks);
+    if(zdb_rootsettings.stats.childwait == 0)
         return;
-    }
 
     // some child were executed, check if they are done
     // if nothing are done, just wait next time
-- 
2.43.0


From f483d3cf4a73b5211c71af10655bd2226daa25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 60/86] fix: namespace-dump crashed on a namespace which
 doesn't exist

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..f221e3a 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] namespace-dump: could not load namespace\n");
+        exit(EXIT_FAILURE);
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From 63376a1249212a6f73261896197f0e8a1d14461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 61/86] fix: namespace-editor ended with success when settings
 could not be written

---
 tools/namespace-editor/namespace-editor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/namespace-editor/namespace-editor.c b/tools/namespace-editor/namespace-editor.c
index e8dc840..b15c42d 100644
--- a/tools/namespace-editor/namespace-editor.c
+++ b/tools/namespace-editor/namespace-editor.c
@@ -57,7 +57,10 @@ int namespace_edit(char *dirname, char *nsname, namespace_t *namespace) {
     ns->maxsize = namespace->maxsize;
 
     // writing changes
-    namespace_commit(ns);
+    if(namespace_commit(ns) < 0) {
+        fprintf(stderr, "[-] could not write namespace descriptor\n");
+        return 1;
+    }
 
     printf("[+]\n");
     printf("[+] ----------------------------------------\n");
-- 
2.43.0


From 9b8dcb9cb8b41604f7aa9bf3065336ae7ddbb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 62/86] fix: namespace-editor truncated passwords longer than
 the descriptor can hold

---
 tools/namespace-editor/namespace-editor.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/namespace-editor/namespace-editor.c b/tools/namespace-editor/namespace-editor.c
index b15c42d..077b90a 100644
--- a/tools/namespace-editor/namespace-editor.c
+++ b/tools/namespace-editor/namespace-editor.c
@@ -118,6 +118,12 @@ int main(int argc, char *argv[]) {
                 break;
 
             case 'p':
+                // the descriptor can't hold a longer password
+                if(strlen(optarg) > 255) {
+                    fprintf(stderr, "[-] password too long\n");
+                    exit(EXIT_FAILURE);
+                }
+
                 namespace.password = optarg;
                 break;
 
-- 
2.43.0


From 3b70124e6427df88339a83985f3b8ebd74e9ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 63/86] fix: quick-compact used the former names of index and
 data files

---
 tools/quick-compaction/quick-compact.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..1523bdb 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -144,13 +144,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%u", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -229,7 +229,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
-- 
2.43.0


From de2e82bc0c70e4817e5fec89c055e59e81f71dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 64/86] fix: quick-compact set the offset of the previous entry
 on each index entry

---
 tools/quick-compaction/quick-compact.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 1523bdb..99d4a47 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -272,13 +272,15 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         ssize_t writelen = sizeof(data_entry_header_t) + item->idlength + item->length;
 
         // saving current position as previous entry
-        session->dataprev = lseek(datafd, 0, SEEK_CUR);
-        dataoffset = session->dataprev;
+        session->dataprev = dataoffset;
 
         // writing new data
         if(write(datafd, dataentry, writelen) != writelen)
             diep("data payload write");
 
+        // next entry will follow this one
+        dataoffset += writelen;
+
         printf("<<<< new next offset: %lu\n", lseek(datafd, 0, SEEK_CUR));
         free(dataentry);
 
-- 
2.43.0


From 4b6269fb0cef5b6d6da7f9c2619d2ef6a3137444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 65/86] fix: entries truncated by quick-compact came back when
 rebuilding the index

---
 tools/quick-compaction/quick-compact.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 99d4a47..515cbe3 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -259,9 +259,9 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         printf("original id len = %d\n", dataentry->idlength);
         printf("original data len = %d\n", dataentry->datalength);
 
-        if(item->length == 0) {
+        if(item->flags & INDEX_ENTRY_DELETED) {
             dataentry->datalength = 0;
-            dataentry->flags |= DATA_ENTRY_TRUNCATED;
+            dataentry->flags |= DATA_ENTRY_TRUNCATED | DATA_ENTRY_DELETED;
             dataentry->integrity = 0;
         }
 
-- 
2.43.0


From 2aea46d1f0399421cb2c27d63b2409618b5a9032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 66/86] fix: quick-compact ended with success on files which
 could not be read or namespaces which don't exist

---
 tools/quick-compaction/quick-compact.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 515cbe3..c022d46 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -110,7 +110,9 @@ static int quick_descriptor_copy(instance_t *input, instance_t *output) {
     if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0)
         diep(pathname);
 
-    namespace_descriptor_update(input->namespace, fd);
+    if(namespace_descriptor_update(input->namespace, fd))
+        diep(pathname);
+
     close(fd);
 
     return 0;
@@ -131,6 +133,7 @@ static int quick_initialize(instance_t *input, instance_t *output) {
 
 size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid, session_t *session) {
     size_t entrycount = 0;
+    ssize_t length;
     int indexfd, datafd;
     char buffer[2048];
     char filebuf[512];
@@ -180,7 +183,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     // processing each entries in index
     // FIXME: read the whole index in memory and parse it in memory
     //        this will be way much faster
-    while(read(input->zdbindex->indexfd, buffer, sizeof(index_item_t)) == sizeof(index_item_t)) {
+    while((length = read(input->zdbindex->indexfd, buffer, sizeof(index_item_t))) == sizeof(index_item_t)) {
         index_item_t *item = (index_item_t *) buffer;
         uint32_t truelen = item->length;
         uint32_t trueoff = item->offset;
@@ -287,6 +290,10 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         entrycount += 1;
     }
 
+    // end of file expected
+    if(length != 0)
+        diep("index item read");
+
     close(indexfd);
     close(datafd);
 
@@ -305,10 +312,14 @@ int quick_compaction(instance_t *input, instance_t *output) {
     quick_initialize(input, output);
 
     // prorcessing all files
-    for(fileid = 0; ; fileid += 1) {
+    uint64_t maxfile = zdb_index_availity_check(input->zdbindex);
+
+    for(fileid = 0; fileid < maxfile; fileid += 1) {
         // setting index and data id to new id
-        if(index_data_jump_to(fileid, input->zdbindex, input->zdbdata))
-            break;
+        if(index_data_jump_to(fileid, input->zdbindex, input->zdbdata)) {
+            fprintf(stderr, "[-] quick-compact: could not open files id: %d\n", fileid);
+            return 1;
+        }
 
         // processing this file
         entrycount += quick_compact_pass(input, output, fileid, &session);
@@ -450,7 +461,7 @@ int main(int argc, char *argv[]) {
     //
     input.nsroot = namespaces_allocate(input.zdbsettings);
 
-    if(!(input.namespace = namespace_load_light(input.nsroot, nsname, 1))) {
+    if(!(input.namespace = namespace_load_light(input.nsroot, nsname, 0))) {
         fprintf(stderr, "[-] quick-compact: intput: could not initialize namespace\n");
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 1cf7d642644e0c6561bbb1a0c53a44ad2e3a24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 67/86] fix: integrity-check ended with success on a file it
 could not read until the end

---
 tools/integrity-check/integrity-check.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index aaef673..effa30a 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -55,8 +55,9 @@ int data_integrity(data_root_t *zdbdata) {
     data_entry_header_t *entry = NULL;
     size_t entrycount = 0;
     char *buffer = NULL;
+    ssize_t length;
 
-    while(read(zdbdata->datafd, &idlength, sizeof(idlength)) == sizeof(idlength)) {
+    while((length = read(zdbdata->datafd, &idlength, sizeof(idlength))) == sizeof(idlength)) {
         // we have the length of the key
         ssize_t entrylength = sizeof(data_entry_header_t) + idlength;
         if(!(entry = realloc(entry, entrylength)))
@@ -102,6 +103,11 @@ int data_integrity(data_root_t *zdbdata) {
         #endif
     }
 
+    // the loop ends with the file, a file which cannot be
+    // read until the end was not checked
+    if(length < 0)
+        zdb_diep("data file read failed");
+
     free(entry);
 
     return errors;
-- 
2.43.0


From 5b48ea2416d240e4fa9900e4a0bcdb4e15a8d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 68/86] fix: index-rebuild ended with success on an index it
 could not complete

---
 tools/index-rebuild/index-rebuild.c | 44 +++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index e803417..efdebdf 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -5,6 +5,8 @@
 #include <inttypes.h>
 #include <getopt.h>
 #include <unistd.h>
+#include <limits.h>
+#include <sys/stat.h>
 #include "libzdb.h"
 
 static struct option long_options[] = {
@@ -18,6 +20,20 @@ static struct option long_options[] = {
     {0, 0, 0, 0}
 };
 
+// there is nothing more to process when this datafile doesn't exist, or
+// when its creation was interrupted (it doesn't even contain the header)
+static int index_data_available(fileid_t fileid, data_root_t *zdbdata) {
+    char filename[PATH_MAX];
+    struct stat sb;
+
+    snprintf(filename, sizeof(filename), "%s/d%" PRIu32, zdbdata->datadir, (uint32_t) fileid);
+
+    if(stat(filename, &sb) != 0)
+        return 0;
+
+    return sb.st_size >= (off_t) sizeof(data_header_t);
+}
+
 int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdbdata) {
     data_header_t *header;
     char datestr[64];
@@ -57,6 +73,7 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
     size_t entrycount = 0;
     uint8_t idlength;
     data_entry_header_t *entry = NULL;
+    ssize_t length;
 
     // now it's time to read each entries
     // each time, one entry starts by the entry-header
@@ -64,7 +81,7 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
     // the entry headers starts with the amount of bytes
     // of the key, which is needed to read the full header
 
-    while(read(zdbdata->datafd, &idlength, sizeof(idlength)) == sizeof(idlength)) {
+    while((length = read(zdbdata->datafd, &idlength, sizeof(idlength))) == sizeof(idlength)) {
         // we have the length of the key
         ssize_t entrylength = sizeof(data_entry_header_t) + idlength;
         if(!(entry = realloc(entry, entrylength)))
@@ -126,6 +143,11 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
 
     free(entry);
 
+    if(length < 0) {
+        zdb_warnp("index-rebuild: data file read failed");
+        return -1;
+    }
+
     printf("[+] index-rebuild: index pass entries: %lu\n", entrycount);
 
     return entrycount;
@@ -138,14 +160,18 @@ int index_rebuild(index_root_t *zdbindex, data_root_t *zdbdata, time_t timestamp
     size_t entrycount = 0;
 
     // prorcessing all files
-    for(fileid = 0; ; fileid += 1) {
+    for(fileid = 0; index_data_available(fileid, zdbdata); fileid += 1) {
         // setting index and data id to new id
-        if(index_data_jump_to(fileid, zdbindex, zdbdata))
-            break;
+        if(index_data_jump_to(fileid, zdbindex, zdbdata)) {
+            zdb_danger("[-] index-rebuild: could not process datafile id: %d, index incomplete", fileid);
+            return 1;
+        }
 
         // processing this file
-        if((entries = index_rebuild_pass(zdbindex, zdbdata, timestamp)) < 0)
-            break;
+        if((entries = index_rebuild_pass(zdbindex, zdbdata, timestamp)) < 0) {
+            zdb_danger("[-] index-rebuild: datafile id: %d not entirely processed, index incomplete", fileid);
+            return 1;
+        }
 
         entrycount += entries;
     }
@@ -300,6 +326,12 @@ int main(int argc, char *argv[]) {
         exit(EXIT_FAILURE);
     }
 
+    // the current index could not be read, we don't know what it contains
+    if(zdbindex->status & INDEX_DEGRADED) {
+        fprintf(stderr, "[-] index-rebuild: cannot read the index\n");
+        exit(EXIT_FAILURE);
+    }
+
     if(timestamp > 0) {
         printf("[+] index-rebuild: only rebuild up-to: %ld\n", timestamp);
     }
-- 
2.43.0


From 56124d62e5a3f0a509f439a05bff6f0a3f9100bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 69/86] fix: SCAN and RSCAN reported read failures as the end
 of the list

---
 libzdb/index_scan.c  | 29 +++++++++++++++++++++++------
 zdbd/commands_scan.c | 12 ++++++++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index 505dafe..25a0189 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -26,6 +26,15 @@ static inline index_scan_t index_scan_error(index_scan_t original, index_scan_st
     return original;
 }
 
+// the requested index file could not be opened: this is the end of the list
+// only if this file doesn't exist (after the last one, or before the first one)
+static index_scan_t index_scan_unavailable(index_root_t *root, index_scan_t scan) {
+    if(scan.fileid > root->indexid)
+        return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+
+    return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+}
+
 // checking if nothing was written in this index file yet: the file
 // was just created after a jump, the previous entry (offset is already
 // known) is located in an older file
@@ -203,7 +212,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index rscan: previous-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_unavailable(root, scan);
         }
 
         // trying to get entry
@@ -236,6 +245,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
 // SCAN implementation
 static index_scan_t index_next_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // if scan.target is not set yet, we don't know the expected
     // offset of the next header, let's read the header
@@ -259,8 +269,11 @@ static index_scan_t index_next_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
         // zdb_warnp("index scan: next-header: could not read next offset indexfile");
+        if(length < 0)
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+
         // this mean the entry expected is the first of the next indexfile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -319,7 +332,7 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, fileid)) < 0) {
             zdb_debug("[-] index scan: next-header: could not open requested file id (%u)\n", fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_unavailable(root, scan);
         }
 
         // trying to get entry
@@ -351,13 +364,17 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
 
 static index_scan_t index_first_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // jumping to next object
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
         zdb_warnp("data: first-header: could not read next offset datafile");
+        if(length < 0)
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+
         // this mean the data expected is the first of the next datafile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -412,7 +429,7 @@ index_scan_t index_first_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: first-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_unavailable(root, scan);
         }
 
         scan = index_first_header_real(scan);
@@ -529,7 +546,7 @@ index_scan_t index_last_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: last-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_unavailable(root, scan);
         }
 
         // trying to get entry
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 678c7ab..12d03e2 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -266,6 +266,12 @@ int command_scan(redis_client_t *client) {
 
     } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
+    // nothing could be read, this is not the end of the list
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
     if(command_scan_send_scanlist(&scanlist, client))
@@ -326,6 +332,12 @@ int command_rscan(redis_client_t *client) {
 
     } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
+    // nothing could be read, this is not the end of the list
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
     if(command_scan_send_scanlist(&scanlist, client))
-- 
2.43.0


From 22bebda2b99634a65513f4c4920c49b6edeee76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 70/86] fix: settings of a namespace were lost when its
 descriptor could not be read

---
 libzdb/namespace.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 026a449..bdd0eff 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -128,12 +128,20 @@ static int namespace_descriptor_open(namespace_t *namespace) {
 // specification such as password, maxsize, etc. (see header)
 static int namespace_descriptor_load(namespace_t *namespace) {
     ns_header_t header;
+    ssize_t length;
     int fd;
 
     if((fd = namespace_descriptor_open(namespace)) < 0)
         return fd;
 
-    if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
+    if((length = read(fd, &header, sizeof(ns_header_t))) != sizeof(ns_header_t)) {
+        // settings exist but cannot be read, do not overwrite them
+        if(length < 0 || lseek(fd, 0, SEEK_END) >= (off_t) sizeof(ns_header_t)) {
+            zdb_warnp("namespace header read");
+            close(fd);
+            return -1;
+        }
+
         // probably new file, let's write initial namespace information
         // (from the beginning, creation could have been interrupted)
         lseek(fd, 0, SEEK_SET);
@@ -149,6 +157,7 @@ static int namespace_descriptor_load(namespace_t *namespace) {
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
         zdb_danger("[-] %s: unsupported version detected", namespace->name);
+        close(fd);
         return -1;
     }
 
@@ -160,14 +169,19 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     if(header.passlength) {
         if(!(namespace->password = calloc(sizeof(char), header.passlength + 1))) {
             zdb_warnp("namespace password malloc");
-            return 0;
+            close(fd);
+            return -1;
         }
 
         // skip the namespace name, jump to password
         lseek(fd, sizeof(ns_header_t) + header.namelength, SEEK_SET);
 
-        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
+        // the namespace would not be protected by its password anymore
+        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength) {
             zdb_warnp("namespace password read");
+            close(fd);
+            return -1;
+        }
     }
 
     zdb_log("[+] namespace: [%s] opened, analyzing...\n", namespace->name);
-- 
2.43.0


From 2c8bcdf923376a7e7f2ee543cf0ff9296825067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 71/86] fix: index-dump ended with success on a file it could
 not read until the end

---
 tools/index-dump/index-dump.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/index-dump/index-dump.c b/tools/index-dump/index-dump.c
index a6881b3..6321de6 100644
--- a/tools/index-dump/index-dump.c
+++ b/tools/index-dump/index-dump.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdint.h>
 #include <inttypes.h>
+#include <unistd.h>
 #include "libzdb.h"
 
 int index_dump_files(index_root_t *zdbindex, uint64_t maxfile) {
@@ -61,6 +62,12 @@ int index_dump_files(index_root_t *zdbindex, uint64_t maxfile) {
             free(entry);
         }
 
+        // the file could not be read until the end
+        if(lseek(zdbindex->indexfd, 0, SEEK_END) != curoff) {
+            fprintf(stderr, "[-] index-dump: could not read index file %" PRIu32 " entirely\n", fileid);
+            return 1;
+        }
+
         printf("[+] ---------------------------\n");
         printf("[+] file done, file entries found: %lu\n", entrycount);
 
-- 
2.43.0


From 0400e3183360c298930a91c039c5100dd0f8c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 72/86] fix: db-sync copied error replies as payloads and
 ignored refused keys

---
 utilities/db-sync/db-sync.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ae12484..984be91 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -182,8 +182,27 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        // key was deleted in the meantime
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] could not fetch key: %s\n", input->str);
+            return 1;
+        }
+
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] could not copy key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -244,7 +263,9 @@ int synchronize(sync_t *sync) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, &status);
+        if(fetchsync(sync, &keylist, &status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
-- 
2.43.0


From 04b74cc2ca298dd1aae9586fbaecf4f25e47ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 73/86] fix: db-sync took any error of the source as the end of
 the keys

---
 utilities/db-sync/db-sync.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index 984be91..64eecdd 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -270,6 +270,12 @@ int synchronize(sync_t *sync) {
         keylist.size = 0;
     }
 
+    // the list ends with an error reply, any other one is a failure
+    if(reply->type != REDIS_REPLY_ERROR || strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] could not list keys: %s\n", reply->str);
+        return 1;
+    }
+
     printf("\n[+] database synchronized\n");
     return 0;
 }
-- 
2.43.0


From 663ab74ff41414453af9fe88a9a8e01a967beff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 74/86] fix: db-replicate copied error replies as payloads and
 ignored refused keys

---
 utilities/db-replicate/db-replicate.c | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c60ffd3..36ac1c9 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -119,8 +119,27 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        // key was deleted in the meantime
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] could not fetch key: %s\n", input->str);
+            return 1;
+        }
+
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] could not copy key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -170,7 +189,9 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, status);
+        if(fetchsync(sync, &keylist, status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
@@ -220,7 +241,8 @@ int synchronize(sync_t *sync) {
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
-        replicate_from_reply(sync, from, &status);
+        if(replicate_from_reply(sync, from, &status))
+            return 1;
 
         freeReplyObject(reply);
         printf("\n");
-- 
2.43.0


From 9d30e358d15b7b5e47b5413471e699cd59143486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 75/86] fix: db-replicate took any error of the source as the
 end of the keys

---
 utilities/db-replicate/db-replicate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 36ac1c9..8a74250 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -196,6 +196,12 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
         keylist.size = 0;
     }
 
+    // the list ends with an error reply, any other one is a failure
+    if(reply->type != REDIS_REPLY_ERROR || strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] could not list keys: %s\n", reply->str);
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From a226e13e285e2595418635061a2df65e638c0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 76/86] fix: db-replicate crashed when the source was empty

---
 utilities/db-replicate/db-replicate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 8a74250..c752ba6 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -243,7 +243,13 @@ int synchronize(sync_t *sync) {
         freeReplyObject(wait);
 
         // fetching from last ket we know
-        if(!(from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        // (there is no last key when the source was empty)
+        if(reply->type == REDIS_REPLY_ARRAY)
+            from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len);
+        else
+            from = redisCommand(sync->sourceq, "SCAN");
+
+        if(!from)
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
-- 
2.43.0


From 93e312fce0893a15b6b90b7f5c5e1fa07f5f5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 77/86] fix: db-replicate lost keys which were set while it was
 copying others

---
 utilities/db-replicate/db-replicate.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c752ba6..29cf754 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -205,7 +205,7 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
     return 0;
 }
 
-int replicate(sync_t *sync) {
+int replicate(sync_t *sync, redisReply **last) {
     redisReply *reply;
     printf("[+] preparing buffers\n");
 
@@ -215,6 +215,11 @@ int replicate(sync_t *sync) {
 
     printf("[+] namespace ready, %lu keys to transfert (%.2f MB)\n", status.keys, MB(status.size));
 
+    // keeping last key known before the copy, what comes
+    // during the copy will be fetched by the synchronization
+    if(!(*last = redisCommand(sync->sourceq, "RSCAN")))
+        return 1;
+
     if(!(reply = redisCommand(sync->sourceq, "SCAN")))
         return 1;
 
@@ -224,17 +229,13 @@ int replicate(sync_t *sync) {
     return value;
 }
 
-int synchronize(sync_t *sync) {
-    redisReply *reply, *wait, *from;
+int synchronize(sync_t *sync, redisReply *reply) {
+    redisReply *next, *wait, *from;
     status_t status = {0};
 
     printf("[+] synchronizing databases\n");
 
     while(1) {
-        printf("[+] fetching last id\n");
-        if(!(reply = redisCommand(sync->sourceq, "RSCAN")))
-            return 1;
-
         printf("[+] waiting trigger on master\n");
         if(!(wait = redisCommand(sync->sourceq, "WAIT SET")))
             return 1;
@@ -242,6 +243,10 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
+        printf("[+] fetching last id\n");
+        if(!(next = redisCommand(sync->sourceq, "RSCAN")))
+            return 1;
+
         // fetching from last ket we know
         // (there is no last key when the source was empty)
         if(reply->type == REDIS_REPLY_ARRAY)
@@ -257,6 +262,7 @@ int synchronize(sync_t *sync) {
             return 1;
 
         freeReplyObject(reply);
+        reply = next;
         printf("\n");
     }
 
@@ -355,10 +361,11 @@ int main(int argc, char **argv) {
         exit(EXIT_FAILURE);
 
     // synchronize databases
-    int value = replicate(&sync);
+    redisReply *last;
+    int value = replicate(&sync, &last);
 
     if(value == 0)
-        value = synchronize(&sync);
+        value = synchronize(&sync, last);
 
     redisFree(sync.sourcep);
     redisFree(sync.sourceq);
-- 
2.43.0


From 377b1c38538c30b81348de121325e25432960c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 78/86] fix: db-replicate lost the following keys once the last
 one it knew was updated (sequential mode)

---
 utilities/db-replicate/db-replicate.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 29cf754..7e896af 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -257,6 +257,15 @@ int synchronize(sync_t *sync, redisReply *reply) {
         if(!from)
             return 1;
 
+        // last key known can't be used anymore (it was updated in
+        // sequential mode), starting again from the first one
+        if(from->type == REDIS_REPLY_ERROR && strcmp(from->str, "No more data")) {
+            freeReplyObject(from);
+
+            if(!(from = redisCommand(sync->sourceq, "SCAN")))
+                return 1;
+        }
+
         printf("[+] trigger fired, syncing...\n");
         if(replicate_from_reply(sync, from, &status))
             return 1;
-- 
2.43.0


From c6edc1fc12a669319bb51074f03138d0ca3753aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 79/86] fix: quick-compact left the end of former files after
 the compacted entries

---
 tools/quick-compaction/quick-compact.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index c022d46..588ee59 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -294,6 +294,14 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     if(length != 0)
         diep("index item read");
 
+    // nothing has to remain after the last entry when
+    // files of a previous compaction were overwritten
+    if(ftruncate(indexfd, lseek(indexfd, 0, SEEK_CUR)) < 0)
+        diep("index truncate");
+
+    if(ftruncate(datafd, dataoffset) < 0)
+        diep("data truncate");
+
     close(indexfd);
     close(datafd);
 
-- 
2.43.0


From 8d76e2fb82aaad9d89ccbf48fe71dc77637f338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 80/86] fix: index-rebuild mixed up the entries of an index
 which was already there

---
 tools/index-rebuild/index-rebuild.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index efdebdf..44d3ea7 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -332,6 +332,13 @@ int main(int argc, char *argv[]) {
         exit(EXIT_FAILURE);
     }
 
+    // entries are appended, they would be mixed with the ones of the
+    // current index and don't follow the data files anymore
+    if(zdbindex->indexid > 0 || lseek(zdbindex->indexfd, 0, SEEK_END) > (off_t) sizeof(index_header_t)) {
+        fprintf(stderr, "[-] index-rebuild: there is already an index, remove it first\n");
+        exit(EXIT_FAILURE);
+    }
+
     if(timestamp > 0) {
         printf("[+] index-rebuild: only rebuild up-to: %ld\n", timestamp);
     }
-- 
2.43.0


From 7eb037cd0534bf029a19725346d8320bef0afa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 81/86] fix: index-rebuild ignored a limit given in time after
 2038

---
 tools/index-rebuild/index-rebuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 44d3ea7..c2c8cf3 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -229,7 +229,7 @@ int main(int argc, char *argv[]) {
                 break;
 
             case 'T':
-                timestamp = atoi(optarg);
+                timestamp = atoll(optarg);
                 break;
 
             case 'm':
-- 
2.43.0


From 7ccbcee6338afdb31ca8bad0f873e4caed09dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 82/86] fix: a FLUSH or NSDEL cut short let removed entries
 come back

files were removed in directory order and failures were ignored: an
interruption (or a file which can't be removed) let index files after a
missing one, they were ignored then used again after the next jumps, and
NSDEL could remove settings protecting a namespace before its contents
---
 libzdb/data.c         |  4 +--
 libzdb/data.h         |  2 +-
 libzdb/filesystem.c   | 70 ++++++++++++++++++++++++++++++++++++-------
 libzdb/index_loader.c |  4 +--
 libzdb/index_loader.h |  2 +-
 libzdb/namespace.c    | 30 +++++++++++++++++--
 6 files changed, 93 insertions(+), 19 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 77af0e4..f816668 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -801,6 +801,6 @@ void data_emergency(data_root_t *root) {
 }
 
 // delete data files
-void data_delete_files(char *datadir) {
-    zdb_dir_clean_payload(datadir);
+int data_delete_files(char *datadir) {
+    return zdb_dir_clean_payload(datadir);
 }
diff --git a/libzdb/data.h b/libzdb/data.h
index 1cf4db9..12b6aa2 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -139,7 +139,7 @@
     size_t data_jump_next(data_root_t *root, fileid_t newid, int fd);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
-    void data_delete_files(char *datadir);
+    int data_delete_files(char *datadir);
 
     data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset);
     data_payload_t data_get(data_root_t *root, size_t offset, size_t length, fileid_t dataid, uint8_t idlength);
diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 86743ac..0b4812d 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -12,6 +12,8 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <limits.h>
+#include <dirent.h>
+#include <errno.h>
 #include <ftw.h>
 #include "libzdb.h"
 #include "libzdb_private.h"
@@ -78,21 +80,69 @@ static int dir_payload_file(const char *name) {
     return name[1] != '\0' && strspn(name + 1, "0123456789") == strlen(name + 1);
 }
 
-static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
-    (void) sb;
+// compare two payload filenames (same prefix), highest id first
+static int dir_payload_compare(const void *a, const void *b) {
+    unsigned long ida = strtoul(*(char * const *) a + 1, NULL, 10);
+    unsigned long idb = strtoul(*(char * const *) b + 1, NULL, 10);
 
-    if(tflag == FTW_F && dir_payload_file(fpath + ftwbuf->base)) {
-        zdb_debug("[+] filesystem: removing payload file: %s\n", fpath);
+    return (ida < idb) - (ida > idb);
+}
 
-        if(unlink(fpath))
-            zdb_warnp(fpath);
+// remove all the payload files of a directory, from the last one to the
+// first one, and stop on the first one which can't be removed
+//
+// if we are interrupted (or if something fails), only the beginning of the
+// files are still there, like they were written: never a file after a
+// missing one, which would be ignored for now then used again later
+int zdb_dir_clean_payload(char *path) {
+    char fullpath[ZDB_PATH_MAX];
+    struct dirent *entry;
+    char **names = NULL;
+    size_t length = 0;
+    int value = 0;
+    DIR *dir;
+
+    if(!(dir = opendir(path))) {
+        // nothing to remove
+        if(errno == ENOENT)
+            return 0;
+
+        zdb_warnp(path);
+        return 1;
     }
 
-    return 0;
-}
+    while((entry = readdir(dir))) {
+        if(!dir_payload_file(entry->d_name))
+            continue;
 
-int zdb_dir_clean_payload(char *path) {
-    return nftw(path, dir_clean_cb, 64, FTW_DEPTH | FTW_PHYS);
+        if(!(names = realloc(names, sizeof(char *) * (length + 1))))
+            zdb_diep("filesystem: clean: realloc");
+
+        if(!(names[length++] = strdup(entry->d_name)))
+            zdb_diep("filesystem: clean: strdup");
+    }
+
+    closedir(dir);
+
+    if(length)
+        qsort(names, length, sizeof(char *), dir_payload_compare);
+
+    for(size_t i = 0; i < length; i++) {
+        snprintf(fullpath, sizeof(fullpath), "%s/%s", path, names[i]);
+
+        if(value == 0) {
+            zdb_debug("[+] filesystem: removing payload file: %s\n", fullpath);
+
+            if((value = unlink(fullpath)))
+                zdb_warnp(fullpath);
+        }
+
+        free(names[i]);
+    }
+
+    free(names);
+
+    return value;
 }
 
 int zdb_file_exists(char *path) {
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 89370d0..890bc65 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -665,8 +665,8 @@ void index_destroy_global() {
 }
 
 // delete index files (not the namespace descriptor)
-void index_delete_files(char *indexdir) {
-    zdb_dir_clean_payload(indexdir);
+int index_delete_files(char *indexdir) {
+    return zdb_dir_clean_payload(indexdir);
 }
 
 // update (rewrite) current index header
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 2de9779..ad3444d 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -21,7 +21,7 @@
     int index_switch_mode(index_root_t *root);
 
     // gracefully clean everything
-    void index_delete_files(char *indexdir);
+    int index_delete_files(char *indexdir);
     void index_destroy(index_root_t *root);
     void index_destroy_global();
 #endif
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index bdd0eff..f8b9a46 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -7,6 +7,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
 #include <time.h>
@@ -264,6 +265,20 @@ int namespace_commit(namespace_t *namespace) {
     return 0;
 }
 
+// remove the descriptor of a namespace
+static int namespace_descriptor_remove(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
+
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+
+    if(unlink(pathname) < 0 && errno != ENOENT) {
+        zdb_warnp(pathname);
+        return 1;
+    }
+
+    return 0;
+}
+
 static char *namespace_path(char *prefix, char *name) {
     char *pathname;
 
@@ -714,14 +729,15 @@ int namespace_flush(namespace_t *namespace) {
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
     index_mode_t mode = namespace->index->mode;
+    int value;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
     data_destroy(namespace->data);
 
     zdb_debug("[+] namespace: flushing: removing files\n");
-    index_delete_files(indexpath);
-    data_delete_files(datapath);
+    if((value = index_delete_files(indexpath)) == 0)
+        value = data_delete_files(datapath);
 
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
@@ -736,7 +752,7 @@ int namespace_flush(namespace_t *namespace) {
     free(indexpath);
     free(datapath);
 
-    return 0;
+    return value;
 }
 
 
@@ -758,6 +774,14 @@ static void namespace_delete_hook(namespace_t *namespace) {
 int namespace_delete(namespace_t *namespace) {
     zdb_log("[+] namespace: removing: %s\n", namespace->name);
 
+    // removing entries first, settings have to protect them as long
+    // as some are still there, if something can't be removed, the namespace
+    // stays available with what is left
+    if(index_delete_files(namespace->indexpath) || data_delete_files(namespace->datapath) || namespace_descriptor_remove(namespace)) {
+        namespace_reload(namespace);
+        return 1;
+    }
+
     // unallocating keys attached to this namespace
     index_clean_namespace(namespace->index, namespace);
 
-- 
2.43.0


From db68c0fa68c1e6fe11376ed43cd51c3b2b550cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 83/86] fix: a read-only namespace descriptor can be loaded

The descriptor was only opened in read-write, 0-db never started on a
read-only index filesystem, even if everything else supports it.
---
 libzdb/namespace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index f8b9a46..959286d 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -117,6 +117,11 @@ static int namespace_descriptor_open(namespace_t *namespace) {
     snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
 
     if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
+        // maybe we are on a read-only filesystem, an existing
+        // descriptor can still be read
+        if(errno == EROFS && (fd = open(pathname, O_RDONLY)) >= 0)
+            return fd;
+
         zdb_warning("[-] cannot create or open in read-write the namespace file");
         return -1;
     }
-- 
2.43.0


From 82468bbfd8bf43d0d82898c4e0337f0ea9963b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 84/86] fix: a refused new namespace does not appear on the
 next start

When the data directory could not be created, the index directory just
created was left behind, and the namespace was loaded on the next start.
---
 libzdb/namespace.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 959286d..e3eb979 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -296,16 +296,27 @@ static char *namespace_path(char *prefix, char *name) {
 }
 
 namespace_t *namespace_ensure(namespace_t *namespace) {
+    int created = 0;
+
     zdb_debug("[+] namespaces: checking index [%s]\n", namespace->indexpath);
     if(zdb_dir_exists(namespace->indexpath) != ZDB_DIRECTORY_EXISTS) {
         if(zdb_dir_create(namespace->indexpath) < 0)
             return zdb_warnp("index dir_create");
+
+        created = 1;
     }
 
     zdb_debug("[+] namespaces: checking data [%s]\n", namespace->datapath);
     if(zdb_dir_exists(namespace->datapath) != ZDB_DIRECTORY_EXISTS) {
-        if(zdb_dir_create(namespace->datapath) < 0)
-            return zdb_warnp("data dir_create");
+        if(zdb_dir_create(namespace->datapath) < 0) {
+            zdb_warnp("data dir_create");
+
+            // a refused namespace must not appear on the next start
+            if(created)
+                rmdir(namespace->indexpath);
+
+            return NULL;
+        }
     }
 
     return namespace;
-- 
2.43.0


From 3f719590170e95eb8f075e4acfe77d2f5968700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:30 +0000
Subject: [PATCH 85/86] fix: missing directories that cannot be created are
 reported

realpath returns NULL on a directory which does not exist, 0-db crashed
when its data or index directory could not be created.
---
 libzdb/bootstrap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index c6d2619..f700484 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -115,6 +115,13 @@ zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
     char *datapath = realpath(zdb_settings->datapath, NULL);
     char *indexpath = realpath(zdb_settings->indexpath, NULL);
 
+    if(!datapath || !indexpath) {
+        zdb_danger("[-] system: could not find or create index and data path");
+        free(datapath);
+        free(indexpath);
+        return NULL;
+    }
+
     if(strcmp(datapath, indexpath) == 0) {
         zdb_danger("[-] system: cannot use the same directory for index and data path");
         return NULL;
-- 
2.43.0


From 70223bda668224001552fe9ed1cb4735b50d4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:16 +0000
Subject: [PATCH 86/86] fix: in sequential mode, a cursor was refused once its
 entry was updated

---
 libzdb/index.c     | 10 +++++++++-
 libzdb/index_seq.c |  8 ++++++++
 libzdb/index_seq.h |  1 +
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 9176973..14705ac 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -677,7 +677,15 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->idlength != key->idlength || item->length != key->length || item->crc != key->crc) {
+    // in sequential mode, an update overwrites the entry in place: its length and
+    // its checksum may have changed since, but entries are fixed-length and the
+    // offset is enough to know this is the location of an entry
+    int match = (item->length == key->length && item->crc == key->crc);
+
+    if(root->mode == ZDB_MODE_SEQUENTIAL && item->idlength == sizeof(seqid_t))
+        match = index_seq_aligned(key->idxoffset);
+
+    if(item->idlength != key->idlength || !match) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 42deb7c..48af14c 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -88,6 +88,14 @@ size_t index_seq_offset(seqid_t relative) {
     return offset;
 }
 
+// check if an entry starts at this offset (see index_seq_offset)
+int index_seq_aligned(size_t offset) {
+    if(offset < sizeof(index_header_t))
+        return 0;
+
+    return (offset - sizeof(index_header_t)) % (sizeof(index_item_t) + sizeof(seqid_t)) == 0;
+}
+
 void index_seqid_dump(index_root_t *root) {
     for(fileid_t i = 0; i < root->seqid->length; i++) {
         index_seqmap_t *item = &root->seqid->seqmap[i];
diff --git a/libzdb/index_seq.h b/libzdb/index_seq.h
index 0eab9ad..3465db3 100644
--- a/libzdb/index_seq.h
+++ b/libzdb/index_seq.h
@@ -4,6 +4,7 @@
     index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid);
     void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid);
     size_t index_seq_offset(seqid_t relative);
+    int index_seq_aligned(size_t offset);
 
     void index_seqid_dump(index_root_t *root);
 #endif
-- 
2.43.0

