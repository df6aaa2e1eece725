From c455d9f66a2a94a3d47f8ff155417a6a1dfc157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 01/40] fix: keep remaining metadata intact in bpak_del_meta

Moving an entry larger than the deleted one cleared part of the data that
had just been moved, deleting from a full table cleared the first part
header instead of the last slot, and an entry with a too small offset was
moved to before the start of the metadata area.
---
 lib/bpak.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..eda2824 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -84,26 +84,24 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
     uint16_t offset_adjust = meta->size;
 
     offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
+    memset(&(hdr->metadata[meta->offset]), 0, meta->size);
 
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
+    while (next_meta != &(hdr->meta[BPAK_MAX_META]) && next_meta->id != 0) {
+        if (next_meta->offset >= offset_adjust) {
             memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
                     &(hdr->metadata[next_meta->offset]),
                     next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
-
             next_meta->offset -= offset_adjust;
+            memset(&(hdr->metadata[next_meta->offset + next_meta->size]),
+                   0,
+                   offset_adjust);
         }
 
         memcpy(meta, next_meta, sizeof(*meta));
-
-        if (!meta->id)
-            break;
-
         meta = next_meta++;
     }
 
-    memset(next_meta, 0, sizeof(*next_meta));
+    memset(meta, 0, sizeof(*meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From c1636131b8541f3d18dd2d1ec73ad99f8265baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 02/40] fix: leave the header untouched when bpak_add_meta is
 refused

The slot was filled in before the space check, so a refused add left an
entry that points outside of the metadata area.
---
 lib/bpak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index eda2824..ee5b6e9 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,12 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
 
             *meta = m;
             return BPAK_OK;
-- 
2.43.0


From 0c88328b645e6e91e2f3d20884a0f7407c964c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 03/40] fix: check all part and meta slots in bpak_valid_header

Lookups consider all slots, but validation stopped at the first unused
one, so entries after a hole could point outside of the header.
---
 lib/bpak.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ee5b6e9..5a09644 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -237,7 +237,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -246,7 +246,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
-- 
2.43.0


From d35eecec0c9a4a350a0db84fb4386f38af6533dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 04/40] fix: count part padding in bpak_pkg_size

The padding of parts is stored in the package file and is part of the
installed size, but was missing from the package size.
---
 lib/pkg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..641e776 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -156,10 +156,7 @@ BPAK_EXPORT size_t bpak_pkg_size(struct bpak_package *pkg)
     size_t transport_size = 0;
 
     bpak_foreach_part (&pkg->header, p) {
-        if (p->flags & BPAK_FLAG_TRANSPORT)
-            transport_size += p->transport_size;
-        else
-            transport_size += p->size;
+        transport_size += bpak_part_size(p);
     }
 
     transport_size += sizeof(struct bpak_header);
-- 
2.43.0


From 48d46fd873819f1543a3dc447d856dce3a436985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 05/40] fix: refuse truncated files in bpak_pkg_open

---
 lib/pkg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 641e776..b111bf6 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,8 +46,14 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* Too short to be a package, but not a new file either */
+    if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
-    if (read_bytes != sizeof(pkg->header)) {
+    if (read_bytes == 0) {
         rc = bpak_init_header(&pkg->header);
         if (rc != BPAK_OK) {
             goto err_close_io;
-- 
2.43.0


From c18077b819ded380c16f49f4ad725e88c1876e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 06/40] fix: keep bpak_bin2hex inside the output buffer

---
 lib/utils.c | 10 ++++------
 src/show.c  |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..1891ff7 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two digits per byte and the terminator must fit */
+    if (buf_sz < 1 || data_sz > (buf_sz - 1) / 2)
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
diff --git a/src/show.c b/src/show.c
index 4a6b859..6f030bc 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[129];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
-- 
2.43.0


From 53e9667eec7d72fea6856eed4877935c3127b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 07/40] fix: check metadata sizes in bpak_meta_to_string

---
 lib/utils.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 1891ff7..3bd3f9b 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -61,16 +61,27 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
 
+    if (size)
+        *buf = 0;
+
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
+        if (m->size < sizeof(*id_ptr))
+            return -BPAK_SIZE_ERROR;
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_KEY_STORE) {
+        if (m->size < sizeof(*id_ptr))
+            return -BPAK_SIZE_ERROR;
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
+        if (m->size < 16)
+            return -BPAK_SIZE_ERROR;
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
+        if (m->size < 2 * sizeof(uint32_t))
+            return -BPAK_SIZE_ERROR;
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
 
@@ -80,27 +91,35 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                  transport_meta->alg_id_encode,
                  transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
+        if (m->size < 32)
+            return -BPAK_SIZE_ERROR;
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
+        if (m->size < 32)
+            return -BPAK_SIZE_ERROR;
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
+        if (m->size < sizeof(uint64_t))
+            return -BPAK_SIZE_ERROR;
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
         snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        size_t length = strnlen((const char *)byte_ptr, m->size);
+
+        if (length >= size)
             return -BPAK_SIZE_ERROR;
 
-        memcpy(buf, byte_ptr, m->size);
+        memcpy(buf, byte_ptr, length);
+        buf[length] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
+        if (m->size < sizeof(*id_ptr))
+            return -BPAK_SIZE_ERROR;
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-    } else {
-        if (size)
-            *buf = 0;
     }
 
     return BPAK_OK;
-- 
2.43.0


From 70b41c0ae2bad8860710b3bf2f59998596a567bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:50 +0000
Subject: [PATCH 08/40] fix: report hashing failures from
 bpak_verify_compute_header_hash

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 3e2639471c90d95da79e2fa45623943b9f3de650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 09/40] fix: compare the origin's package uuid with the
 patch's, not with itself

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..6677878 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,7 +184,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
-- 
2.43.0


From efe8deb006442747586f355ce97543356b18760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 10/40] fix: let bpak_merkle_init build trees of exactly four
 levels

---
 lib/merkle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..254fc68 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -69,6 +69,9 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
     /* Compute the length of each level and the total length of the hash tree */
     level_length = input_data_length;
     do {
+        if (level >= BPAK_MERKLE_MAX_LEVELS)
+            return -BPAK_NO_SPACE_LEFT;
+
         level_length = (level_length >> BPAK_MERKLE_BLOCK_BITS) * 32;
         pad_bytes = (~level_length + 1) & (BPAK_MERKLE_BLOCK_SZ - 1);
         level_length += pad_bytes;
@@ -76,9 +79,6 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
         ctx->hash_tree_length += level_length;
         level = level + 1;
 
-        if (level >= BPAK_MERKLE_MAX_LEVELS)
-            return -BPAK_NO_SPACE_LEFT;
-
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
 
     ctx->no_of_levels = level;
-- 
2.43.0


From d1527690488fa0c7746f0f607ec1b904ab319e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 11/40] fix: refuse raw signatures larger than the signature
 field

---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index b111bf6..cb6ce16 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -196,6 +196,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From 7c2722177d7a6290466baf3aee490c070dc29197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 12/40] fix: extract transport coded parts by their stored size

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index cb6ce16..37d928b 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -451,7 +451,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From 59ca9f2a74330fb6ea802a2a174a126c53bbd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 13/40] fix: read only the remaining data when deleting a part
 and report short files

---
 lib/pkg.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 37d928b..40b74ad 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -544,15 +544,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From 9fae6940932fcba30342b526bc78caa46207d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 14/40] fix: stop adding a file that is shorter than expected,
 and never read more than its size

---
 lib/pkg_create.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..2d5da95 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -255,7 +255,12 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t chunk_length = BPAK_MIN(bytes_to_write, sizeof(chunk_buffer));
+        size_t read_bytes = fread(chunk_buffer, 1, chunk_length, in_fp);
+        if (read_bytes != chunk_length) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
-- 
2.43.0


From ab9dfb13a2c980f2d61616a4a0f3f7df04cbdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 15/40] fix: pad added keys with zeros instead of whatever
 follows a single zero byte

---
 lib/pkg_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 2d5da95..0ee9ac2 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -346,8 +346,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    static const uint8_t zeros[BPAK_PART_ALIGN];
+    if (fwrite(zeros, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
-- 
2.43.0


From 1fbc64af9012672beee78180726380f1bb2290c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 16/40] fix: report write errors that only show when the
 extracted file is flushed

---
 lib/pkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 40b74ad..90da856 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -479,7 +479,10 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if ((fclose(fp) != 0) && (rc == BPAK_OK))
+            rc = -BPAK_WRITE_ERROR;
+    } else if ((fflush(fp) != 0) && (rc == BPAK_OK)) {
+        rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
-- 
2.43.0


From 46fe52735c66d47f249d5583fb6d35fd128f3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 17/40] fix: do not use missing package ids when encoding for
 transport

---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..cc9c4fa 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -368,21 +368,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From aa9096ba063401bb156e9bd189e27a5d29f30238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 18/40] fix: write new parts where part offsets say they are,
 also behind transport coded parts

---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 0ee9ac2..98a3fd0 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -168,7 +168,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     p->pad_bytes =
         0; /* Merkle tree is multiples of 4kByte, no padding needed */
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Could not seek to new pos\n");
@@ -238,7 +238,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
@@ -331,7 +331,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Could not seek to new pos\n");
-- 
2.43.0


From 6db4b8b5962ff791be6bf045e3fef905a3ec1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 19/40] fix: refuse files a hash tree cannot be built for
 before adding them

---
 lib/pkg_create.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 98a3fd0..dba1cf5 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -54,18 +54,21 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != 0)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
+    if (merkle_buf == NULL)
+        return -BPAK_FAILED;
+
     memset(merkle_buf, 0, merkle_sz);
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
@@ -90,6 +93,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
-- 
2.43.0


From 81af3cb77338b434038909f9eee0cde111b159da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 20/40] fix: refuse key parts that do not fit the key buffer,
 and make room for RSA 4096 keys

---
 lib/keystore_load_from_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..8f56160 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
-- 
2.43.0


From 4e7bf32985f0e44c9d6296578769dcf9b899a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 21/40] fix: make room for RSA 4096 public keys when parsing
 keys

---
 lib/mbedtls_wrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..2300da6 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -435,7 +435,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From 040ddda81251549d53d24aeebb304eb8715211b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 22/40] fix: report keys the backend could not parse when
 loading key files

---
 lib/mbedtls_wrapper.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 2300da6..8d91bff 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -279,7 +279,11 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     unsigned char tmp[1024];
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-    mbedtls_pk_parse_public_keyfile(&ctx, filename);
+
+    if (mbedtls_pk_parse_public_keyfile(&ctx, filename) != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx;
+    }
 
     int len = mbedtls_pk_write_pubkey_der(&ctx, tmp, sizeof(tmp));
 
@@ -289,6 +293,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
@@ -320,6 +330,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
@@ -364,6 +375,11 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     rc = mbedtls_pk_parse_keyfile(&ctx, filename, NULL);
 #endif
 
+    if (rc != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx_out;
+    }
+
     int len = mbedtls_pk_write_key_der(&ctx, tmp, sizeof(tmp));
 
     if (len < 0) {
-- 
2.43.0


From d4c2be7f9e0ecffbbce224cb6c6cc61ca97e83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 23/40] fix: report failures of the hash backend

---
 lib/mbedtls_wrapper.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 8d91bff..40f04b2 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -13,67 +13,72 @@
 
 int bpak_mbed_hash_init(struct bpak_hash_context *ctx)
 {
+    int rc;
+
     switch (ctx->kind) {
     case BPAK_HASH_SHA256:
         mbedtls_sha256_init(&ctx->backend.mbed_sha256);
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha256_starts(&ctx->backend.mbed_sha256, 0);
+        rc = mbedtls_sha256_starts(&ctx->backend.mbed_sha256, 0);
 #else
-        mbedtls_sha256_starts_ret(&ctx->backend.mbed_sha256, 0);
+        rc = mbedtls_sha256_starts_ret(&ctx->backend.mbed_sha256, 0);
 #endif
         break;
     case BPAK_HASH_SHA384:
         mbedtls_sha512_init(&ctx->backend.mbed_sha512);
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha512_starts(&ctx->backend.mbed_sha512, 1);
+        rc = mbedtls_sha512_starts(&ctx->backend.mbed_sha512, 1);
 #else
-        mbedtls_sha512_starts_ret(&ctx->backend.mbed_sha512, 1);
+        rc = mbedtls_sha512_starts_ret(&ctx->backend.mbed_sha512, 1);
 #endif
         break;
     case BPAK_HASH_SHA512:
         mbedtls_sha512_init(&ctx->backend.mbed_sha512);
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha512_starts(&ctx->backend.mbed_sha512, 0);
+        rc = mbedtls_sha512_starts(&ctx->backend.mbed_sha512, 0);
 #else
-        mbedtls_sha512_starts_ret(&ctx->backend.mbed_sha512, 0);
+        rc = mbedtls_sha512_starts_ret(&ctx->backend.mbed_sha512, 0);
 #endif
         break;
     default:
         return -BPAK_UNSUPPORTED_HASH_ALG;
     }
 
-    return BPAK_OK;
+    return rc == 0 ? BPAK_OK : -BPAK_FAILED;
 }
 
 int bpak_mbed_hash_update(struct bpak_hash_context *ctx, const uint8_t *buffer,
                           size_t length)
 {
+    int rc;
+
 #if MBEDTLS_VERSION_MAJOR >= 3
     if (ctx->kind == BPAK_HASH_SHA256)
-        mbedtls_sha256_update(&ctx->backend.mbed_sha256,
+        rc = mbedtls_sha256_update(&ctx->backend.mbed_sha256,
                               (const unsigned char *)buffer,
                               length);
     else
-        mbedtls_sha512_update(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_update(&ctx->backend.mbed_sha512,
                               (const unsigned char *)buffer,
                               length);
 
 #else
     if (ctx->kind == BPAK_HASH_SHA256)
-        mbedtls_sha256_update_ret(&ctx->backend.mbed_sha256,
+        rc = mbedtls_sha256_update_ret(&ctx->backend.mbed_sha256,
                                   (const unsigned char *)buffer,
                                   length);
     else
-        mbedtls_sha512_update_ret(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_update_ret(&ctx->backend.mbed_sha512,
                                   (const unsigned char *)buffer,
                                   length);
 #endif
-    return BPAK_OK;
+    return rc == 0 ? BPAK_OK : -BPAK_FAILED;
 }
 
 int bpak_mbed_hash_final(struct bpak_hash_context *ctx, uint8_t *buffer,
                          size_t buffer_length, size_t *result_length)
 {
+    int rc;
 
     switch (ctx->kind) {
     case BPAK_HASH_SHA256:
@@ -83,10 +88,10 @@ int bpak_mbed_hash_final(struct bpak_hash_context *ctx, uint8_t *buffer,
             (*result_length) = 32;
 
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha256_finish(&ctx->backend.mbed_sha256,
+        rc = mbedtls_sha256_finish(&ctx->backend.mbed_sha256,
                               (unsigned char *)buffer);
 #else
-        mbedtls_sha256_finish_ret(&ctx->backend.mbed_sha256,
+        rc = mbedtls_sha256_finish_ret(&ctx->backend.mbed_sha256,
                                   (unsigned char *)buffer);
 #endif
         break;
@@ -97,10 +102,10 @@ int bpak_mbed_hash_final(struct bpak_hash_context *ctx, uint8_t *buffer,
             (*result_length) = 48;
 
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha512_finish(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_finish(&ctx->backend.mbed_sha512,
                               (unsigned char *)buffer);
 #else
-        mbedtls_sha512_finish_ret(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_finish_ret(&ctx->backend.mbed_sha512,
                                   (unsigned char *)buffer);
 #endif
         break;
@@ -111,17 +116,17 @@ int bpak_mbed_hash_final(struct bpak_hash_context *ctx, uint8_t *buffer,
             (*result_length) = 64;
 
 #if MBEDTLS_VERSION_MAJOR >= 3
-        mbedtls_sha512_finish(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_finish(&ctx->backend.mbed_sha512,
                               (unsigned char *)buffer);
 #else
-        mbedtls_sha512_finish_ret(&ctx->backend.mbed_sha512,
+        rc = mbedtls_sha512_finish_ret(&ctx->backend.mbed_sha512,
                                   (unsigned char *)buffer);
 #endif
         break;
     default:
         return -BPAK_UNSUPPORTED_HASH_ALG;
     }
-    return BPAK_OK;
+    return rc == 0 ? BPAK_OK : -BPAK_FAILED;
 }
 
 void bpak_mbed_hash_free(struct bpak_hash_context *ctx)
-- 
2.43.0


From 4ec8856bd98e681e9d4a3a7d7c5584af0c7f3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 24/40] fix: refuse unknown hash kinds when signing and
 verifying

---
 lib/mbedtls_wrapper.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 40f04b2..dcd77b5 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -175,11 +175,15 @@ int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
 
     (*verified) = false;
 
+    if (hash_kind(kind) < 0)
+        return -BPAK_UNSUPPORTED_HASH_ALG;
+
     mbedtls_pk_init(&ctx);
 
     rc = mbedtls_pk_parse_public_key(&ctx, key->data, key->size);
 
     if (rc != 0) {
+        mbedtls_pk_free(&ctx);
         return -BPAK_KEY_DECODE;
     }
 
@@ -211,6 +215,9 @@ int bpak_mbed_sign(const uint8_t *hash, size_t hash_length,
     mbedtls_entropy_context entropy;
     mbedtls_ctr_drbg_context ctr_drbg;
 
+    if (hash_kind(kind) < 0)
+        return -BPAK_UNSUPPORTED_HASH_ALG;
+
     mbedtls_entropy_init(&entropy);
     mbedtls_ctr_drbg_init(&ctr_drbg);
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From d60337ba8a4b574260bafd62f1dfbb0f457042e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 25/40] fix: do not build a hash tree over the part of a file
 that could be read

---
 lib/pkg_create.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index dba1cf5..079d0ee 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -103,13 +103,17 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         goto err_free_buf_out;
     }
 
-    rc = BPAK_OK;
-    while (true) {
-        chunk_sz = fread(block_buf, 1, sizeof(block_buf), fp);
+    uint64_t bytes_to_process = statbuf.st_size;
 
-        if (chunk_sz == 0)
-            break;
+    while (bytes_to_process) {
+        chunk_sz = BPAK_MIN(bytes_to_process, sizeof(block_buf));
+
+        if (fread(block_buf, 1, chunk_sz, fp) != chunk_sz) {
+            rc = -BPAK_READ_ERROR;
+            goto err_close_fp_out;
+        }
 
+        bytes_to_process -= chunk_sz;
         rc = bpak_merkle_write_chunk(&ctx, block_buf, chunk_sz);
 
         if (rc != BPAK_OK)
-- 
2.43.0


From 1272487dabd8efc2f5d5e77cdb9847047af28057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 26/40] fix: refuse negative lengths in patches

---
 lib/bspatch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..cdf5894 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -89,6 +89,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if ((ctx->diff_count < 0) || (ctx->extra_count < 0)) {
+            bpak_printf(0, "Error: Negative length in patch\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
-- 
2.43.0


From 24556e0399be30f133530fc7379d46ea6472f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 27/40] fix: refuse origin positions out of range when patching

---
 lib/bspatch.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index cdf5894..8a74ca0 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -51,6 +51,23 @@ static int64_t offtin(uint8_t *buf)
     return y;
 }
 
+/* Move the origin position, patches may contain any adjustment */
+static int move_origin(struct bpak_bspatch_context *ctx)
+{
+    off_t position;
+    off_t offset;
+
+    if (__builtin_add_overflow(ctx->origin_position, ctx->adjust, &position) ||
+        __builtin_add_overflow(ctx->origin_offset, position, &offset)) {
+        bpak_printf(0, "Error: Origin position out of range\n");
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+    }
+
+    ctx->origin_position = position;
+    return BPAK_OK;
+}
+
 static int bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
                          size_t length)
 {
@@ -159,7 +176,9 @@ process_more:
             if (ctx->extra_count > 0) {
                 ctx->state = BPAK_PATCH_STATE_APPLY_EXTRA;
             } else {
-                ctx->origin_position += ctx->adjust;
+                rc = move_origin(ctx);
+                if (rc != BPAK_OK)
+                    break;
                 ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
                 ctx->ctrl_buf_count = 0;
             }
@@ -195,9 +214,11 @@ process_more:
         pp += data_to_process;
 
         if (ctx->extra_count == 0) {
+            rc = move_origin(ctx);
+            if (rc != BPAK_OK)
+                break;
             ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
             ctx->ctrl_buf_count = 0;
-            ctx->origin_position += ctx->adjust;
 
             if (bytes_available > 0) {
                 goto process_more;
-- 
2.43.0


From 1225710616ecddade7a254f8bd36a1d8b1e5e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 28/40] fix: refuse patching without a working buffer instead
 of looping

---
 lib/bspatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 8a74ca0..aab8252 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -415,7 +415,7 @@ BPAK_EXPORT int bpak_bspatch_init(struct bpak_bspatch_context *ctx,
 
     memset(ctx, 0, sizeof(*ctx));
 
-    if (buffer_length % 2 != 0)
+    if ((buffer_length == 0) || (buffer_length % 2 != 0))
         return -BPAK_SIZE_ERROR;
 
     ctx->patch_buffer = &buffer[0];
-- 
2.43.0


From 90ad673d3d04e78f690d1b1378f77f97f4b682f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 29/40] fix: keep the data of parts behind an unused table slot
 when deleting a part

---
 lib/pkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 90da856..f86bcb0 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -514,7 +514,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     /* Part now points to what previously was the part after the one we remove */
     for (; part != &(h->parts[BPAK_MAX_PARTS]); part++) {
         if (!part->id)
-            break;
+            continue;
 
         part->offset -= p_size;
         bytes_to_process += bpak_part_size(part);
@@ -584,7 +584,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     bpak_foreach_part(h, p) {
         if (p->id == 0)
-            break;
+            continue;
 
         new_size += bpak_part_size(p);
     }
-- 
2.43.0


From bbe37428861bff33cf6a503ae3ff30145b26efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 30/40] fix: decode parts behind an unused table slot

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index f86bcb0..d500c9b 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -325,7 +325,7 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     bpak_foreach_part (patch_header, part) {
         if (part->id == 0)
-            break;
+            continue;
 
         /* Compute origin and output offsets */
         if (origin != NULL) {
-- 
2.43.0


From 5f9c02fb62ca87fbb9fa27239c045d0ee467835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 31/40] fix: encode parts behind an unused table slot

---
 lib/transport_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cc9c4fa..79898b8 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -392,7 +392,7 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
 
     bpak_foreach_part (input_header, ph) {
         if (ph->id == 0)
-            break;
+            continue;
 
         if (bpak_get_meta(input_header,
                           BPAK_ID_BPAK_TRANSPORT,
-- 
2.43.0


From 31619e795b93f9ccd06ee5596f9ef75c53989819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 32/40] fix: copy the data of parts that are already coded for
 transport

---
 lib/transport_encode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 79898b8..1951915 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -260,7 +260,11 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
 
     /* Already processed for transport ?*/
     if ((output_part->flags & BPAK_FLAG_TRANSPORT))
-        return BPAK_OK;
+        return transport_copy(input_header,
+                              output_header,
+                              part_ref_id,
+                              input_fp,
+                              output_fp);
 
     bpak_printf(1,
                 "Initializing alg, input size %li bytes\n",
-- 
2.43.0


From df4fdcf8e00d9f5164317062b66e859b23f2976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 33/40] fix: refuse to diff parts that reach beyond the end of
 their file

---
 lib/transport_encode.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 1951915..6194561 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -142,6 +142,10 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
     if (target_file_sz == -1)
         return -BPAK_SEEK_ERROR;
 
+    if (target_offset < 0 || target_offset > target_file_sz ||
+        target_length > (size_t)(target_file_sz - target_offset))
+        return -BPAK_READ_ERROR;
+
     target_data_mmap =
         mmap(NULL, target_file_sz, PROT_READ, MAP_SHARED, target_fd, 0);
 
@@ -167,6 +171,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if (origin_offset < 0 || origin_offset > origin_file_sz ||
+        origin_length > (size_t)(origin_file_sz - origin_offset)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     origin_data_mmap =
         mmap(NULL, origin_file_sz, PROT_READ, MAP_SHARED, origin_fd, 0);
 
-- 
2.43.0


From 62a0ce119d86c171d45ded3b827a4a27a678ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 34/40] fix: do not report unused slots as the part with id 0

---
 lib/bpak.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bpak.c b/lib/bpak.c
index 5a09644..9a5732a 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -108,6 +108,10 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Unused slots have id 0, they are not parts */
+    if (!id)
+        return -BPAK_NOT_FOUND;
+
     bpak_foreach_part (hdr, p) {
         if (p->id == id) {
             (*part) = p;
-- 
2.43.0


From 90e2c3fa486f9d5b802c781e961d0051e099612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 35/40] fix: patch buffers of 2 GiB and more

---
 lib/bspatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index aab8252..6132c32 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -147,7 +147,7 @@ process_more:
 
         ctx->origin_position += nread;
 
-        for (int i = 0; i < data_to_process; i++) {
+        for (ssize_t i = 0; i < data_to_process; i++) {
             ctx->patch_buffer[i] += pp[i];
         }
 
-- 
2.43.0


From 60d645eba243ef1a6b6ae75672596ca36c8d581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:31 +0000
Subject: [PATCH 36/40] fix: keep refusing patch data after an error

---
 lib/bspatch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6132c32..b53e247 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -444,6 +444,10 @@ BPAK_EXPORT int bpak_bspatch_write(struct bpak_bspatch_context *ctx,
                                    uint8_t *buffer, size_t length)
 {
     int rc;
+
+    if (ctx->state == BPAK_PATCH_STATE_ERROR)
+        return -1;
+
     switch (ctx->compression) {
     case BPAK_COMPRESSION_NONE:
         rc = bspatch_write(ctx, buffer, length);
-- 
2.43.0


From 977fd246c6171056f0b47cd6eec08ae6f8f6fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 37/40] fix: do not report a part as decoded when only some of
 it was copied

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 6677878..8255ac1 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -339,7 +339,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From c9d3018226ae7ace55967ca949240580b3eb32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 38/40] fix: do not keep an origin with another package id

---
 lib/transport_decode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 8255ac1..b87e5b4 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -161,10 +161,6 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     uint8_t *origin_package_uuid;
     uint8_t *patch_package_uuid;
 
-    ctx->origin_header = origin_header;
-    ctx->read_origin = read_origin;
-    ctx->origin_offset = origin_offset;
-
     /* Origin and input package should have the same package-uuid */
     rc = bpak_get_meta(origin_header,
                        BPAK_ID_BPAK_PACKAGE,
@@ -189,6 +185,10 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
 
+    ctx->origin_header = origin_header;
+    ctx->read_origin = read_origin;
+    ctx->origin_offset = origin_offset;
+
     return BPAK_OK;
 }
 
-- 
2.43.0


From 637e18f778ac6a81cf765b6dc2d486a2539dc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:00 +0000
Subject: [PATCH 39/40] fix: do not read behind the end of the suffix array
 when searching for matches

---
 lib/bsdiff.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..eef7b03 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -669,14 +669,19 @@ BPAK_EXPORT ssize_t bpak_bsdiff(struct bpak_bsdiff_context *ctx)
         for (int64_t scsc = ctx->scan; ctx->scan < (int64_t)ctx->new_length;
              ctx->scan++) {
 
-            ctx->len = search(ctx->suffix_array,
-                              ctx->origin_data,
-                              ctx->origin_length,
-                              ctx->new_data + ctx->scan,
-                              ctx->new_length - ctx->scan,
-                              0,
-                              ctx->origin_length,
-                              &(ctx->pos));
+            if (ctx->origin_length > 0) {
+                ctx->len = search(ctx->suffix_array,
+                                  ctx->origin_data,
+                                  ctx->origin_length,
+                                  ctx->new_data + ctx->scan,
+                                  ctx->new_length - ctx->scan,
+                                  0,
+                                  ctx->origin_length - 1,
+                                  &(ctx->pos));
+            } else {
+                ctx->len = 0;
+                ctx->pos = 0;
+            }
 
             for (; scsc < ctx->scan + ctx->len; scsc++) {
                 if ((scsc + ctx->last_offset < (int64_t)ctx->origin_length) &&
-- 
2.43.0


From c1a57225b20d354fcb49ccdd78d955abb5fba694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:00 +0000
Subject: [PATCH 40/40] fix: matches of 2 GiB or more got a negative length

---
 lib/bsdiff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index eef7b03..9571de7 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -33,7 +33,7 @@ static const lzma_allocator lzma_alloc = {
 };
 #endif
 
-static int32_t matchlen(uint8_t *from_p, int64_t from_size, uint8_t *to_p,
+static int64_t matchlen(uint8_t *from_p, int64_t from_size, uint8_t *to_p,
                         int64_t to_size)
 {
     int64_t i;
-- 
2.43.0

