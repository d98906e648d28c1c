From 9d2c4cdbc6980193ebad2986194e97e2aad2ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 01/42] fix: do not leave a cache slot claimed when reading its
 block failed

A failed block read left the slot tagged with the block position and a
NULL block, so the next access hit it and dereferenced NULL.
---
 include/squash/cache.h | 3 +++
 src/cache.c            | 5 +++++
 src/fs.c               | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/include/squash/cache.h b/include/squash/cache.h
index e60a592..d56073d 100644
--- a/include/squash/cache.h
+++ b/include/squash/cache.h
@@ -57,6 +57,9 @@ void sqfs_cache_destroy(sqfs_cache *cache);
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx);
 void *sqfs_cache_add(sqfs_cache *cache, sqfs_cache_idx idx);
 
+/* Forget an entry just added, whose contents could not be produced */
+void sqfs_cache_invalidate(sqfs_cache *cache, void *entry);
+
 
 typedef struct {
 	sqfs_block *block;
diff --git a/src/cache.c b/src/cache.c
index 5a999cc..762c0d0 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -88,6 +88,11 @@ void *sqfs_cache_add(sqfs_cache *cache, sqfs_cache_idx idx) {
 	return sqfs_cache_entry(cache, i);
 }
 
+void sqfs_cache_invalidate(sqfs_cache *cache, void *entry) {
+	size_t i = ((uint8_t*)entry - cache->buf) / cache->size;
+	cache->idxs[i] = SQFS_CACHE_IDX_INVALID;
+}
+
 static void sqfs_block_cache_dispose(void *data) {
 	sqfs_block_cache_entry *entry = (sqfs_block_cache_entry*)data;
 	sqfs_block_dispose(entry->block);
diff --git a/src/fs.c b/src/fs.c
index d51ea26..e3ad6b4 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -186,6 +186,7 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 		entry = sqfs_cache_add(&fs->md_cache, *pos);
 		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
 		if (ret) {
+			sqfs_cache_invalidate(&fs->md_cache, entry);
 			goto exit;
 		}
 	}
@@ -208,6 +209,7 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		entry = sqfs_cache_add(cache, pos);
 		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
 		if (ret) {
+			sqfs_cache_invalidate(cache, entry);
 			goto exit;
 		}
 	}
-- 
2.43.0


From 774e66b38a9b421d3ef9fc9f9be62d05aaf0b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 02/42] fix: make sqfs_cache_destroy safe to call twice

sqfs_cache_init destroys the cache when an allocation fails and
sqfs_init then destroys it again through sqfs_destroy: double free.
---
 src/cache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache.c b/src/cache.c
index 762c0d0..c764c5d 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -62,6 +62,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From 1a6d18d1a949beb7b0713f8f717c94e380acd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 03/42] fix: report an unsupported compression type instead of
 aborting

sqfs_init documents SQFS_BADCOMP for it and checks for NULL.
---
 src/decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..07ea9bc 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -26,7 +26,6 @@
 #include "squash/squashfs_fs.h"
 
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +38,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL;
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From 43253f4c8a1fb42daa75f22759fd12fa0bef03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 04/42] fix: do not index past the block index for a read
 inside the fragment

When the block list ends exactly at a metadata block boundary, a read that
starts in the tail fragment looked one entry past the end of the index.
---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index d680b5f..4a9ed99 100644
--- a/src/file.c
+++ b/src/file.c
@@ -282,7 +282,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 584541c1e7b2c34c75b49c4b7c74e248312d903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 05/42] fix: an empty read or a read past the end of a file
 yields zero bytes

Both were reported as errors; a negative start was used as an offset.
---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 4a9ed99..b18a279 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (*size == 0 || start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From 760f944bbf05994af022408368feb581aa5aa07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 06/42] fix: refuse to seek to a negative position or with an
 unknown whence

A negative position was stored, and reads from it went out of bounds.
SEEK_END on a directory aborted the process.
---
 src/fd.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..eafab03 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,6 +180,7 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	off_t pos;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
@@ -188,18 +189,29 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		/* an overflow wraps to a negative position, refused below */
+		pos = (off_t)(file->pos + (uint64_t)offset);
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->node.xtra.reg.file_size;
 	}
-	return file->pos;
+	else
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	if (pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = pos;
+	return pos;
 }
 
 static void squash_halt()
-- 
2.43.0


From 9c0f40a5bd63420935261669ef125202aeb39b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 07/42] fix: reading a link into a zero-sized buffer wrote past
 the buffer

The size minus one wrapped around.
---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index e3ad6b4..bd3717c 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -289,6 +289,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (*size == 0)
+		return SQFS_ERR;
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From 11c0abefd3c516c837a4217023431894b162bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 08/42] fix: the terminator of a 256-byte name went past the
 end of d_name

---
 src/dirent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..d3f95a7 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -140,8 +140,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From 72ca193dd27f04e4c8a945688da5a427e61c1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 09/42] fix: keep the entries already read when readdir runs
 out of memory

---
 src/dirent.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index d3f95a7..88a7d68 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -100,16 +100,18 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 {
 	sqfs_err error;
 	size_t nr = dirp->loc + 1;
+	void *entries;
 	if (dirp->nr < nr) {
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
-- 
2.43.0


From d3cb3d147b0c4f7c01386beec1406785e810c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 10/42] fix: release the vfd and the path when opendir fails
 after opening

Opening a regular file as a directory leaked the vfd, and left the freed
directory stream behind as its payload.
---
 src/dirent.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dirent.c b/src/dirent.c
index 88a7d68..a0d52e7 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -66,7 +66,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
-	free(dir);
+	free(dir->filename);
+	if (-1 == dir->fd) {
+		free(dir);
+	} else {
+		// dir is the payload of the vfd by now, and freed along with it
+		squash_close(dir->fd);
+	}
 	return NULL;
 }
 
-- 
2.43.0


From d60f1bdaa7080e0143901dc1e58a147aeba9f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 11/42] fix: release everything when opening a file fails half
 way

The path copy and the descriptor were leaked; when the table could not
grow, the mutex stayed locked and the table was lost.
---
 src/fd.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index eafab03..7f3fa89 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -17,9 +17,10 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
 	int *handle;
+	struct squash_file **fds;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -66,13 +67,15 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
+		fds = realloc(squash_global_fdtable.fds,
 						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
@@ -103,6 +106,10 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		close(fd);
+	}
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 6236cfb0fbf6093cbabf8c9ac902772d2d6aeeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 12/42] fix: bound the index into the id, fragment and export
 tables

An index with no entry read past the table; inode number 0 as well.
---
 src/file.c | 2 +-
 src/fs.c   | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index b18a279..ea96a7a 100644
--- a/src/file.c
+++ b/src/file.c
@@ -33,7 +33,7 @@ sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 		uint32_t idx) {
 	sqfs_err err = SQFS_OK;
 	
-	if (idx == SQUASHFS_INVALID_FRAG)
+	if (idx == SQUASHFS_INVALID_FRAG || idx >= fs->sb->fragments)
 		return SQFS_ERR;
 	
 	err = sqfs_table_get(&fs->frag_table, fs, idx, frag);
diff --git a/src/fs.c b/src/fs.c
index bd3717c..8d457b6 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -269,7 +269,12 @@ size_t sqfs_divceil(uint64_t total, size_t group) {
 
 sqfs_err sqfs_id_get(sqfs *fs, uint16_t idx, sqfs_id_t *id) {
 	uint32_t rid;
-	sqfs_err err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
+	sqfs_err err;
+	
+	if (idx >= fs->sb->no_ids)
+		return SQFS_ERR;
+	
+	err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
 	if (err)
 		return err;
 	*id = (sqfs_id_t)rid;
@@ -309,6 +314,8 @@ sqfs_err sqfs_export_inode(sqfs *fs, sqfs_inode_num n, sqfs_inode_id *i) {
 	
 	if (!sqfs_export_ok(fs))
 		return SQFS_UNSUP;
+	if (n == 0 || n > fs->sb->inodes)
+		return SQFS_ERR;
 	
 	err = sqfs_table_get(&fs->export_table, fs, n - 1, &r);
 	if (err)
-- 
2.43.0


From 6713cfdda34ffcc571cd7cc19780424972546632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 13/42] fix: sqfs_stack_init leaves the size uninitialised

Closing a traversal that failed to open popped from a stack of no items.
---
 src/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..dc29c29 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,7 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 0c8dbd53c764164aebc1ea2163b31b7b994faa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 14/42] fix: refuse a hash of zero buckets, which is not a
 power of two

Every access to it went out of bounds.
---
 src/hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..8997830 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -69,7 +69,7 @@ static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
 	memset(h, 0, sizeof(*h));
-	if ((initial & (initial - 1))) /* not power of two? */
+	if (initial == 0 || (initial & (initial - 1))) /* not power of two? */
 		return SQFS_ERR;
 	
 	h->buckets = calloc(initial, sizeof(sqfs_hash_bucket*));
-- 
2.43.0


From b332c970df7e5812956a98afa58a664efe293f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 15/42] fix: a hash that cannot grow must keep what it holds

A failed allocation while doubling dropped entries, or all of them.
---
 src/hash.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 8997830..689b0ca 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -43,22 +43,25 @@ static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
 }
 
 static sqfs_err sqfs_hash_double(sqfs_hash *h) {
+	sqfs_hash old = *h;
 	sqfs_hash_bucket **ob = h->buckets;
 	size_t oc = h->capacity;
 	size_t i;
 	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	if ((err = sqfs_hash_init(h, h->value_size, oc * 2))) {
+		*h = old;
 		return err;
+	}
 	
 	for (i = 0; i < oc; ++i) {
 		sqfs_hash_bucket *b = ob[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (h->capacity - 1));
+			b->next = h->buckets[hash];
+			h->buckets[hash] = b;
+			++h->size;
 			b = n;
 		}
 	}
-- 
2.43.0


From 18a560caecfeb58168a36b94b9ce88d18c48f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 16/42] fix: scandir must list every entry and return a valid
 array

It stopped silently after 1024 entries, returned a freed array when nothing
was selected, and did not check its allocations.
---
 src/scandir.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..73f06d4 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -18,7 +18,8 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 {
 	SQUASH_DIR * openeddir = 0;
 	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t max = MAX_DIR_ENT; /* allocated size for list */
+	struct SQUASH_DIRENT **list = NULL, **bigger;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
 	if((dirname == NULL) || (namelist == NULL))
@@ -30,6 +31,8 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 
 	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+		goto nomem;
 
 
 	while(( ent = squash_readdir(openeddir)) != NULL)
@@ -37,22 +40,29 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 		if( select && !select(ent))
 			continue;
 
+		if(n >= max) {
+			max *= 2;
+			bigger = (struct SQUASH_DIRENT **)realloc((void *)list,max*sizeof(struct SQUASH_DIRENT *));
+			if(bigger == NULL)
+				goto nomem;
+			list = bigger;
+		}
+
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+			goto nomem;
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
 	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
+	*namelist = n ? realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *)) : NULL;
 	if(*namelist == NULL)
 		*namelist = list;
 
@@ -63,4 +73,11 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
-}
\ No newline at end of file
+nomem:
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = ENOMEM;
+	return -1;
+}
-- 
2.43.0


From b06cc4e64d0e3513f1a91d81e354557ee6eb81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 17/42] fix: the extract cache must own its copy of the path

It kept the pointer of the caller, whose buffer may be reused for another
path: that one then found the file extracted for the first.
---
 src/extract.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..6639b63 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -228,8 +228,12 @@ static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PA
 	if (NULL == ptr) {
 		return;
 	}
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return;
+	}
 	ptr->fs = fs;
-	ptr->path = path;
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
-- 
2.43.0


From 69000b99924008c7634415bd09c4686f734019c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 18/42] fix: squash_extract_clear_cache must empty the cache

It deleted the files but kept the entries: a later squash_extract returned
the path of a deleted file.
---
 src/extract.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 6639b63..763737c 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -258,12 +258,17 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 void squash_extract_clear_cache()
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
+	squash_extract_cache = NULL;
 	while (NULL != ptr) {
+		struct SquashExtractEntry* next = ptr->next;
 #ifdef _WIN32
 		DeleteFileW(ptr->ret);
 #else
 		unlink(ptr->ret);
 #endif
-		ptr = ptr->next;
+		free((void *)ptr->ret);
+		free((void *)ptr->path);
+		free(ptr);
+		ptr = next;
 	}
 }
-- 
2.43.0


From 40cb3f458d2e32268234abbab118ec9bc5b1e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 19/42] fix: squash_extract leaks a vfd on every extraction

---
 src/extract.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 763737c..fc51d1f 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -165,10 +165,12 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
+		squash_close(fd);
 		return NULL;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
+		squash_close(fd);
 		return NULL;
 	}
 #ifdef _WIN32
@@ -178,6 +180,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 #endif
 	if (NULL == fp) {
 		free(tmpf);
+		squash_close(fd);
 		return NULL;
 	}
 	file = SQUASH_VFD_FILE(fd);
@@ -187,6 +190,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 		if (ssize <= 0) {
 			fclose(fp);
 			free(tmpf);
+			squash_close(fd);
 			return NULL;
 		}
 		offset -= ssize;
@@ -194,10 +198,12 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 		if (size != 1) {
 			fclose(fp);
 			free(tmpf);
+			squash_close(fd);
 			return NULL;
 		}
 	}
 	assert(0 == offset);
+	squash_close(fd);
 	fclose(fp);
 	return tmpf;
 }
-- 
2.43.0


From 5544c4f09561b6de70bd32e90eed8f5682793e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 20/42] fix: a failed squash_extract must not leave a partial
 file or report success

The last buffered bytes are written by fclose, whose failure was ignored;
the other failures left the partial file in the temporary folder.
---
 src/extract.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index fc51d1f..268f665 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
 	FILE *fp;
-	int fd;
+	int fd, ret;
 	SQUASH_OS_PATH tmpf;
 	size_t size;
 	ssize_t ssize;
@@ -188,24 +188,37 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			squash_close(fd);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			squash_close(fd);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
 	squash_close(fd);
-	fclose(fp);
+	fd = -1;
+	ret = fclose(fp);
+	fp = NULL;
+	if (0 != ret) {
+		goto failure;
+	}
 	return tmpf;
+failure:
+	if (NULL != fp) {
+		fclose(fp);
+	}
+#ifdef _WIN32
+	DeleteFileW(tmpf);
+#else
+	unlink(tmpf);
+#endif
+	free((void *)tmpf);
+	if (-1 != fd) {
+		squash_close(fd);
+	}
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From 1ff1862da139a69ebba329733aba25b69632b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 21/42] fix: extracting four files within a second failed

squash_tmpf reseeded rand() with the time on each call, and so tried the
same three names again, which were taken.
---
 src/extract.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 268f665..6765263 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -125,8 +125,12 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	char squash_buf[squash_buf_sz + 1];
 	int ret, try_cnt = 0;
 	struct stat statbuf;
+	static short seeded = 0;
 
-	srand(time(NULL) * getpid());
+	if (!seeded) {
+		srand(time(NULL) * getpid());
+		seeded = 1;
+	}
 	while (try_cnt < 3) {
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
-- 
2.43.0


From b5ad23c78a640b43bd1f96d54db6b408c178f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 22/42] fix: following a relative link must stay within its
 path buffers

A link path without a slash was searched for one before its start, and
a long link path and target together overflowed the new path.
---
 src/dir.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..94201fe 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -319,7 +319,7 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 	char new_path[SQUASHFS_PATH_LEN];
 	int inode_num;
 
-	if(strlen(path) > SQUASHFS_PATH_LEN){
+	if(strlen(path) >= SQUASHFS_PATH_LEN){
 		errno = ENAMETOOLONG;
 		return SQFS_ERR;
 	}
@@ -345,13 +345,18 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 					return SQFS_ERR;
 				}
 			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
+				size_t pos = strlen(base_path);
 				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
+				while (pos > 0 && base_path[pos - 1] != '/')
+					--pos;
 
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
+				if (pos + link_length >= SQUASHFS_PATH_LEN) {
+					errno = ENAMETOOLONG;
+					return SQFS_ERR;
+				}
+				memcpy(new_path, base_path, pos);
+				memcpy(new_path + pos, buf_link, link_length);
+				new_path[pos + link_length] = '\0';
 				
 				error = clear_dot_dot(new_path);
 				if (SQFS_OK != error) {
-- 
2.43.0


From 40e91f301af6e5a1821c7980521a5d9afd0f5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 23/42] fix: a dot-dot must cancel a component, not a repeated
 slash or a dot

"/a//../b" and "/a/./../b" were taken for "/a/b" instead of "/b", and
"a/../b" was not found.
---
 src/dir.c | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 94201fe..f43494e 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -275,6 +275,24 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 	return err;
 }
 
+/* Where the component that a dot-dot following `end` cancels starts, with its
+   leading slash if any: repeated slashes and dots are not components. */
+static char *component_before(char *path, char *end)
+{
+	char *start;
+	while (end > path) {
+		start = end;
+		while (start > path && '/' != start[-1])
+			--start;
+		if (2 == end - start && '.' == start[0] && '.' == start[1])
+			return NULL;
+		if (end - start > 1 || (1 == end - start && '.' != *start))
+			return start > path ? start - 1 : start;
+		end = start > path ? start - 1 : start;
+	}
+	return NULL;
+}
+
 static sqfs_err clear_dot_dot(char *path)
 {
 	char *dot_dot, *dot_dot_left;
@@ -282,30 +300,18 @@ static sqfs_err clear_dot_dot(char *path)
 	// we might get a path like /a/b/../../c/d
 	// in which case we need to interpret dot-dot's
 	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
+		dot_dot_left = component_before(path, dot_dot);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
 		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
 	}
 	// what about /a/b/c/d/..
 	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
+		dot_dot_left = component_before(path, path + strlen(path) - 3);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
 		*dot_dot_left = '\0';
 	}
 	return SQFS_OK;
-- 
2.43.0


From ef81f52ba9c8403a32e8fb7a73b9e268206b1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 24/42] fix: a link loop through a directory component must end
 in ELOOP

Only the links in the last component were counted, per chain: with a link
a -> a/b, looking up /a/x recursed until the stack overflowed.
---
 src/dir.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index f43494e..927aaa3 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -317,13 +317,17 @@ static sqfs_err clear_dot_dot(char *path)
 	return SQFS_OK;
 }
 
-sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
+static sqfs_err lookup_path_links(sqfs *fs, sqfs_inode *inode,
+		const char *incoming_path, short *found, short follow_link, int *links);
+
+/* `links` counts the links followed so far, at all levels of recursion */
+static sqfs_err follow_link_links(sqfs *fs, const char *path,
+		sqfs_inode *node, int *links) {
 
 	sqfs_err error;
 	short found;
 	char base_path[SQUASHFS_PATH_LEN];
 	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
 	if(strlen(path) >= SQUASHFS_PATH_LEN){
 		errno = ENAMETOOLONG;
@@ -331,10 +335,14 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 	}
 
 	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
 	do {
 		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
+		ssize_t link_length;
+		if (++*links > SQUASHFS_MAX_LINK_LEVEL) {
+			errno = ELOOP;
+			return SQFS_ERR;
+		}
+		link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
 		if (link_length > 0) {
 			if (buf_link[0] == '/') { // is Absolute Path
 				// find node from /
@@ -342,7 +350,7 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				if (SQFS_OK != error) {
 					return error;
 				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
+				error = lookup_path_links(fs, node, buf_link, &found, 0, links);
 				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
 				if (SQFS_OK != error) {
 					return error;
@@ -375,7 +383,7 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				if (SQFS_OK != error) {
 					return error;
 				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
+				error = lookup_path_links(fs, node, new_path, &found, 0, links);
 				if (SQFS_OK != error) {
 					return error;
 				} else if (!found) {
@@ -384,11 +392,6 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				}
 			}
 
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
 			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
 
 		} else {
@@ -401,8 +404,13 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 	return SQFS_OK;
 }
 
-sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incoming_path,
-		short *found, short follow_link) {
+sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
+	int links = 0;
+	return follow_link_links(fs, path, node, &links);
+}
+
+static sqfs_err lookup_path_links(sqfs *fs, sqfs_inode *inode,
+		const char *incoming_path, short *found, short follow_link, int *links) {
 	sqfs_err err, ret;
 	sqfs_name buf;
 	sqfs_path path_here;
@@ -476,7 +484,7 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 				}
 				memcpy(path_here, path0, size_here);
 				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+				err = follow_link_links(fs, path_here, inode, links);
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
@@ -492,6 +500,12 @@ exit:
 	return ret;
 }
 
+sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *path,
+		short *found, short follow_link) {
+	int links = 0;
+	return lookup_path_links(fs, inode, path, found, follow_link, &links);
+}
+
 sqfs_err sqfs_lookup_path(sqfs *fs, sqfs_inode *inode, const char *path,
 		short *found) {
 	return sqfs_lookup_path_inner(fs, inode, path, found, 0);
-- 
2.43.0


From e947eb1a9adb29f2329e97ca587346632a67c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 25/42] fix: a link to a link with a trailing slash resolved
 against itself

The trailing slash was taken for the one before the last component.
---
 src/dir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.c b/src/dir.c
index 927aaa3..b7b6ee3 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -361,6 +361,8 @@ static sqfs_err follow_link_links(sqfs *fs, const char *path,
 			} else { // is Relative Path
 				size_t pos = strlen(base_path);
 				// find the last /  "/a/b/cb"
+				while (pos > 0 && base_path[pos - 1] == '/')
+					--pos;
 				while (pos > 0 && base_path[pos - 1] != '/')
 					--pos;
 
-- 
2.43.0


From 467f19a83773ec325b8fa3dae4df81097efc7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 26/42] fix: squash_tmpdir reads the directory's name when
 there was no memory to copy it

---
 src/extract.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 6765263..9ed9f40 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,6 +113,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
-- 
2.43.0


From 3b6aea223c2f691cdf316da2b7afd3a9845763e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 27/42] fix: a failed read of a directory entry must not
 consume part of it

---
 src/dir.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index b7b6ee3..b703ca2 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -125,6 +125,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	const sqfs_dir before = *dir;
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -134,12 +135,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto error;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto error;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -150,11 +151,16 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto error;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+
+error:
+	/* what was read of the entry so far is not consumed: it can be retried */
+	*dir = before;
+	return 0;
 }
 
 
-- 
2.43.0


From d1d5f33a76c412f510640aa465ac519fa383a094 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 28/42] fix: access on a path of the overlay passes the
 requested mode

The address of a local stat buffer was passed as the mode.
---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..3fdb824 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -640,14 +640,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 97866a4d619b609e5b285c4a3c9b23b04ededeca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 29/42] fix: a failed pread leaves the position of the
 descriptor alone

---
 sample/enclose_io_unix.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3fdb824..096c222 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -591,9 +591,6 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
 		return read_ssize;
-- 
2.43.0


From 1c396fde03b33d25cd6097c1b288225f7386a68f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 30/42] fix: openat hands open the number of arguments open
 itself has

With four arguments open asserted, with three it read a mode that was not passed.
---
 sample/enclose_io_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 096c222..2bfaa2f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1256,7 +1256,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1264,7 +1264,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1279,7 +1279,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1287,7 +1287,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 029a5e79597f2a3b48b259555dbe36d923ca166e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 31/42] fix: sizes and offsets of 2 GiB and more pass through
 read and lseek

The result of the virtual call was cut to an int.
---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..a477dc6 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -142,7 +142,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} while (0)
 
 int enclose_io_exepath(char* buffer, size_t* size);
-int enclose_io_dos_return(int statement);
+int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 void enclose_io_chdir_helper(const char *path);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2bfaa2f..e8fbc38 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -653,9 +653,9 @@ int enclose_io_access(const char *path, int mode)
 
 #endif // !_WIN32
 
-int enclose_io_dos_return(int statement) {
+int64_t enclose_io_dos_return(int64_t statement) {
 #ifdef _WIN32
-	int ret = (statement);
+	int64_t ret = (statement);
 	if (-1 == ret) {
 		ENCLOSE_IO_SET_LAST_ERROR;
 		return ret;
-- 
2.43.0


From 047fad5db84385a01a0695caced8d24fb8bffe8d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 32/42] fix: readv passes over empty buffers and reports what
 it read before an error

An empty buffer ended the read, and an error after some buffers were filled
lost the bytes by which the position had already moved.
---
 sample/enclose_io_unix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e8fbc38..3e659c4 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -608,11 +608,12 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				/* what was already read has moved the position */
+				return ret ? ret : -1;
+			}
+			ret += i_ssize;
+			if ((size_t)i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From d4974503c361b662e76e81d973d5513db2f2344e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 33/42] fix: getcwd refuses a buffer that is too small

It cut the path instead, and with a size of 0 or 1 wrote before the buffer or
far beyond it.
---
 sample/enclose_io_unix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3e659c4..dec4979 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -788,13 +788,15 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				#endif
 				return NULL;
 			}
-		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
-			}
+		} else if (size < memcpy_len) {
+			/* the terminator takes the place of the last slash */
+			errno = ERANGE;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return NULL;
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
-		assert(memcpy_len - 1 >= 0);
 		buf[memcpy_len - 1] = '\0';
 		return buf;
 	} else {
-- 
2.43.0


From 64aced713a20c039f420ae1305725bcd390c2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 34/42] fix: failing to make the overlay directory released
 nothing of the mutex

The global mutex stayed locked, so that the next operation waited forever.
---
 sample/enclose_io_unix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index dec4979..e597534 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -93,6 +93,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #ifdef _WIN32
@@ -101,6 +102,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
@@ -108,6 +110,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (mkdir(mkdir_workdir)) {
@@ -115,6 +118,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (atexit(mkdir_workdir_halt)) {
@@ -122,6 +126,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #else
@@ -130,12 +135,14 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #endif
-- 
2.43.0


From defb2d098642af867e971f9474ef78bd52601296 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 35/42] fix: an overlay directory with a long name overran the
 path buffers

With a temporary directory of more than 2048 bytes every later operation on
the image copied its name into a shorter buffer.
---
 sample/enclose_io_unix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e597534..1716cb6 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -130,6 +130,13 @@ static char * enclose_io_mkdir_workdir()
 				return NULL;
 			}
 #else
+			if (strlen(generic_mkdir_workdir) > SQUASHFS_PATH_LEN) {
+				/* every buffer an overlay path is built in is a sqfs_path */
+				free(generic_mkdir_workdir);
+				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
+				return NULL;
+			}
 			mkdir_workdir = generic_mkdir_workdir;
 			if (mkdir(mkdir_workdir, S_IRWXU)) {
 				mkdir_workdir = NULL;
-- 
2.43.0


From 7a1180f4a5bb0b925d7a3fefc026ba3c3c3f0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 36/42] fix: removing the overlay went on or stopped depending
 on an undefined result

---
 sample/enclose_io_unix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 1716cb6..cc6d262 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0;
 }
 #endif
 
-- 
2.43.0


From 68f43100a5cfde759e91aa2dbab4ffc64aa12974 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 37/42] fix: open with O_CREAT wrote into the caller's path

A constant path crashed, and another thread could see it cut.
---
 sample/enclose_io_unix.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index cc6d262..25d0f51 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1084,12 +1084,17 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			char *dir_thereof = strdup(pathname);
+			if (NULL == dir_thereof) {
+				errno = ENOMEM;
+				return enclose_io_dos_return(-1);
+			}
+			char *dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				enclose_io_mkdir(dir_thereof, 0777);
 			}
+			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 2bdef8a571e36da04d3e877c76bfcf7a8cb34c56 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 38/42] fix: chdir ignored the virtual working directory for
 relative paths

It changed the real directory, leaving the virtual one or failing.
---
 sample/enclose_io_unix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 25d0f51..637c1e4 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -727,7 +727,13 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
-	if (enclose_io_is_path(path)) {
+	if (enclose_io_cwd[0] && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	} else if (enclose_io_is_path(path)) {
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From b78cdea73080682ae9aa25771ef58671e525e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 39/42] fix: changing to a directory with a long path ended up
 in another one

The path was cut to the size of the buffer.
---
 sample/enclose_io_unix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 637c1e4..0ca1418 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -734,6 +734,13 @@ int enclose_io_chdir(const char *path)
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io_chdir(enclose_io_expanded);
 	} else if (enclose_io_is_path(path)) {
+		if (strlen(path) >= SQUASHFS_PATH_LEN) {
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From d0cd9daff8023f77fd50b7be9278c7c17e7a92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 40/42] fix: a failed fdopendir leaked the name of the
 directory

---
 sample/enclose_io_unix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0ca1418..a51cd95 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -464,6 +464,12 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		free(dir);
+		errno = ENOMEM;
+		return NULL;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -501,6 +507,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From 1cd730fd0462f4ed4fa8b310f2fd9d7d7672f912 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 41/42] fix: an entry that cannot be read looked like the end
 of the directory

squash_readdir returned NULL without an error number.
---
 src/dirent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dirent.c b/src/dirent.c
index a0d52e7..4905355 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -132,6 +132,7 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			errno = EIO;
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
-- 
2.43.0


From a2c4e74193830c9697b3657feb5f6a68f028c81f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 42/42] fix: a scan whose listing failed part way returned what
 it had as the whole directory

---
 src/scandir.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 73f06d4..cca2acf 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -21,6 +21,7 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	size_t max = MAX_DIR_ENT; /* allocated size for list */
 	struct SQUASH_DIRENT **list = NULL, **bigger;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
+	int error = errno;
 
 	if((dirname == NULL) || (namelist == NULL))
 		return -1;
@@ -35,7 +36,7 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 		goto nomem;
 
 
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	while(errno = 0, ( ent = squash_readdir(openeddir)) != NULL)
 	{
 		if( select && !select(ent))
 			continue;
@@ -58,6 +59,11 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 		n++;
 	}
 
+	/* NULL with an error number is not the end of the directory */
+	if(errno)
+		goto failure;
+	errno = error;
+
 	//close the squash_dir
 	squash_closedir(openeddir);
 
@@ -74,10 +80,13 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	return n;
 
 nomem:
+	errno = ENOMEM;
+failure:
+	error = errno;
 	while(n > 0)
 		free(list[--n]);
 	free(list);
 	squash_closedir(openeddir);
-	errno = ENOMEM;
+	errno = error;
 	return -1;
 }
-- 
2.43.0

