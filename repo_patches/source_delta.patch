From a4f2eeb639159f1bcf98cd3e8e33296db42e975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 01/59] fix: close the input file when fstat fails

crefl_read_file returned without closing its stream, so every failed
load leaked a file handle.
---
 include/crefl/util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..e443347 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
-- 
2.43.0


From 5ebc92e18fa876acd132b0119b891b223627a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 02/59] fix: report write errors that surface when the file is
 closed

Data is buffered by stdio, so a full disk or an I/O error is usually
only seen by fclose. crefl_write_file ignored it and reported success
for a file that was not written.
---
 include/crefl/util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index e443347..78d1856 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -115,7 +115,10 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    if (fclose(f) != 0) {
+        fprintf(stderr, "fclose: %s\n", strerror(errno));
+        return -1;
+    }
 
     return buf.size() == len ? 0 : -1;
 }
-- 
2.43.0


From 62aba7c01c88b9e0378a8cf25c0b9bbd2d4eda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 03/59] fix: reject a database that is shorter than its header
 says

crefl_db_read_mem copied decls and names without checking that the
buffer holds them, reading past its end for a truncated file.
---
 src/db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..4adcfca 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -70,6 +70,12 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     size_t name_sz = hdr->name_table_size;
     size_t root_idx = hdr->root_element;
 
+    /* verify that decls and names are within the buffer. */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: decls or names truncated\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From 612d1c0fadaa1a45c3d00229281b4c36a62b1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 04/59] fix: reject a database whose name table is not
 terminated

Names are read as C strings, so a name table without a final NUL lets
every reader run off its end.
---
 src/db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 4adcfca..7641c89 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -76,6 +76,12 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return -1;
     }
 
+    /* verify that the last name is terminated. */
+    if (name_sz != 0 && buf[hdr_sz + decl_sz + name_sz - 1] != '\0') {
+        fprintf(stderr, "crefl: *** error: names not terminated\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From db0bff37ef1d44895a6607095ff3c98660fcc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 05/59] fix: leave the db unchanged when loading into it fails

A rejected load left the db holding the rejected declarations (or a
second set of builtin types), with references out of bounds.
---
 src/db.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 7641c89..d8262c7 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -52,7 +52,7 @@ size_t crefl_db_size(decl_db *db)
  * decl db memory io
  */
 
-int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
+static int crefl_db_load_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
 {
     if (input_sz < sizeof(decl_db_hdr)) {
         fprintf(stderr, "crefl: *** error: header too short\n");
@@ -147,6 +147,21 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     return 0;
 }
 
+int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
+{
+    decl_db saved = *db;
+    int ret = crefl_db_load_mem(db, buf, input_sz);
+    if (ret != 0) {
+        /* a failed load leaves the db contents as they were */
+        db->name_offset = saved.name_offset;
+        db->name_builtin = saved.name_builtin;
+        db->decl_offset = saved.decl_offset;
+        db->decl_builtin = saved.decl_builtin;
+        db->root_element = saved.root_element;
+    }
+    return ret;
+}
+
 int crefl_db_write_mem(decl_db *db, uint8_t *buf, size_t output_sz)
 {
     size_t hdr_sz = sizeof(decl_db_hdr);
-- 
2.43.0


From 04bc86c9cbd416c74ce07e904c3af23e309a8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 06/59] fix: size the hashmap bitmap in whole 64-bit words

The bitmap is accessed as uint64_t, so a map of 16 slots (the default)
read and wrote 4 bytes past its allocation.
---
 include/crefl/hashmap.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..028b351 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -185,6 +185,7 @@ struct hashmap
     enum bitmap_state {
         available = 0, occupied = 1, deleted = 2, recycled = 3
     };
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline size_t bitmap_idx(size_t i) { return i >> 5; }
     static inline size_t bitmap_shift(size_t i) { return ((i << 1) & 63); }
     static inline bitmap_state bitmap_get(uint64_t *bitmap, size_t i)
@@ -209,7 +210,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +239,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From f9632c54a7303aac2edcbe0a5dca64d1c375056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 07/59] fix: do not store a hashmap key twice after an erase

insert and operator[] reused the first tombstone on the probe path
without looking further, so a key that was already present behind it
was stored a second time and reappeared with its old value later.
---
 include/crefl/hashmap.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 028b351..8966a8f 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,6 +250,12 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        /* look past tombstones for the key before reusing one */
+        iterator f = find(v.first);
+        if (f != end()) {
+            f->second = v.second;
+            return f;
+        }
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
@@ -279,6 +285,9 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        /* look past tombstones for the key before reusing one */
+        iterator f = find(key);
+        if (f != end()) return f->second;
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
-- 
2.43.0


From b82ecff31210414510e146efb124eddb116df0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 08/59] fix: make begin() of an empty hashmap equal end()

Iterating or comparing an empty map dereferenced the slot past its end.
---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 8966a8f..9fba70b 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 84b4e93a7ef3cc568d61b46141046edfe0b7927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 09/59] fix: hashmap self-assignment and move assignment

Assigning a map to itself copied from freed memory (or emptied it when
moved), and move assignment leaked the old table.
---
 include/crefl/hashmap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9fba70b..cf0fade 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -133,6 +133,8 @@ struct hashmap
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +154,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
-- 
2.43.0


From 6d5d8a3ab78e9ab9cb267bb71e8d54d1e188d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 10/59] fix: link types to declarations and not to aliases when
 merging

An alias replaced the declaration it stands for in the hash table, so
fields, parameters and pointers copied afterwards linked to the alias
and their type appeared to have no width, fields or constants.
---
 src/link.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..2087d85 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -380,7 +380,6 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
-        (*state->map)[*hash] = r;
         return r;
     }
 
-- 
2.43.0


From d757adf24bbce2940fe0742ba30ea5f01be7d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 11/59] fix: hash and merge every attribute of a declaration

attr links to a list, but only its first attribute was hashed and
copied: declarations that differ in a later attribute were merged into
one, and merging dropped all attributes but the first.
---
 src/link.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 2087d85..0eef972 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -122,10 +122,13 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        crefl_hash_absorb(sum, attr_delimeter);
-        hash = crefl_node_hash(index, next, d, prefix);
-        crefl_hash_absorb(sum, hash_delimeter);
-        crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        while (crefl_decl_idx(next)) {
+            crefl_hash_absorb(sum, attr_delimeter);
+            hash = crefl_node_hash(index, next, d, prefix);
+            crefl_hash_absorb(sum, hash_delimeter);
+            crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+            next = crefl_decl_next(next);
+        }
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
@@ -385,8 +388,14 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        while (crefl_decl_idx(next)) {
+            c = crefl_copy_node(state, next, d);
+            if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+            else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+            last = c;
+            next = crefl_decl_next(next);
+        }
+        last = decl_ref { db, 0 };
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
-- 
2.43.0


From e23c696a88ebec58a1a95b648c2ab568dcafb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 12/59] fix: make two s64 codec functions match their
 declarations

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..2659760 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -703,7 +703,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From 1e3d6ad7bbbfdc67ff32abc56652a8e968e18f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 13/59] fix: keep both bits of the identifier class

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2659760..b2502c1 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From 2bc35786b0120597add7ecad79ef024d917c2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 14/59] fix: refuse tags and LEB128 numbers that do not end
 within 56 bits

---
 src/asn1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b2502c1..62e63ca 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From f211f437eb11e1473042e1eebd6947ec40645c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 15/59] fix: refuse booleans whose length is not one

---
 src/asn1.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 62e63ca..e60f65c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,6 +313,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
-- 
2.43.0


From 0efd14118d228e9927cc5e47cb39af8e28f6deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 16/59] fix: buffer capacity checks that wrap around or are
 never true

---
 include/crefl/buf.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..dab4879 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,10 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+        len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
@@ -211,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From a0c0ab3d5a535c14ec6831b61d941b6e852b35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 17/59] fix: keep octet strings inside the buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e60f65c..efa4828 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2590,7 +2590,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2608,7 +2608,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From a6fb2be6e19845e101eb9b9fb285c734a4267030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 18/59] fix: split the first two object identifier components
 as X.690 8.19.4 says

---
 src/asn1.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index efa4828..c974bbe 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2449,11 +2449,10 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 first = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = first;
+            obj->oid[n++] = comp - first*40;
         }
         else {
             if (n < limit) obj->oid[n] = comp;
-- 
2.43.0


From e0737ccc08a67c10d492a27a4bec249b04583b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 19/59] fix: refuse object identifiers that run past their
 announced length

---
 src/asn1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index c974bbe..2c9c463 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2460,6 +2460,7 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         }
         offset = crefl_buf_offset(buf);
     }
+    if ((offset - start) != len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From 9e82c876b576103e21fbcfcac57050fb55a43b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/59] fix: do not read past the components of a long object
 identifier

---
 src/asn1.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2c9c463..8a0a8f5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2424,11 +2424,13 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (i == 0 && obj->count > 1) {
+        if (i == 0 && count > 1) {
             length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);
             i++;
         } else {
@@ -2470,6 +2472,7 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    if (obj->count > asn1_oid_comp_max) goto err;
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From f27d3ad86a36e0d7b82bf1dfa1e88b8f7a7695e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 21/59] fix: object identifier text that does not fit is cut
 short

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8a0a8f5..8ddb073 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2520,8 +2520,8 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (offset < limit ? str + offset : NULL),
+            (offset < limit ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From a6083b1f109850f9c2168346a3bcb32cfe016869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 22/59] fix: accept zero components in object identifier text

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8ddb073..a68d7a5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2544,15 +2544,15 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i == buflen) {
+            //
+        } else if (isdigit((u8)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
         } else {
             goto err;
         }
-- 
2.43.0


From 2d1a61db9f930961fcccf91072beab35bff7e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 23/59] fix: encode and decode subnormal REAL values

---
 src/asn1.cc | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index a68d7a5..5c18d3f 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -973,6 +973,8 @@ static f64_asn1_data f64_asn1_data_get(double value)
 
     if (sexp > 0) {
         sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    } else if (frac != 0) {
+        sexp = 1 + frac_tz - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
@@ -1063,16 +1065,21 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
      * left-justify the fraction with the most significant set bit in bit 51
      * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
      */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
+    if (frac == 0) {
         fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
+    } else if ((s64)(f64_exp_bias + 63 + sexp - frac_lz) > 0) {
+        frac = (frac << frac_lz << 1) >> (64 - f64_mant_size);
         fexp = f64_exp_bias + 63 + sexp - frac_lz;
+    } else {
+        /* subnormal - right-justify the fraction, refusing to lose bits */
+        s64 sh = f64_exp_bias + f64_mant_size - 1 + sexp;
+        if (sh < -63 || (sh < 0 && (frac & ((1ull << -sh) - 1)))) {
+            goto err;
+        }
+        frac = sh < 0 ? frac >> -sh : frac << sh;
+        fexp = 0;
     }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+    if (fexp >= f64_exp_mask || frac > f64_mant_mask) {
         return -1;
     }
     v = f64_pack_float(f64_struct{frac, fexp, sign});
@@ -1143,16 +1150,21 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
      * left-justify the fraction with the most significant set bit in bit 51
      * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
      */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
+    if (frac == 0) {
         fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
+    } else if ((s64)(f64_exp_bias + 63 + sexp - frac_lz) > 0) {
+        frac = (frac << frac_lz << 1) >> (64 - f64_mant_size);
         fexp = f64_exp_bias + 63 + sexp - frac_lz;
+    } else {
+        /* subnormal - right-justify the fraction, refusing to lose bits */
+        s64 sh = f64_exp_bias + f64_mant_size - 1 + sexp;
+        if (sh < -63 || (sh < 0 && (frac & ((1ull << -sh) - 1)))) {
+            return f64_result { 0, -1 };
+        }
+        frac = sh < 0 ? frac >> -sh : frac << sh;
+        fexp = 0;
     }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+    if (fexp >= f64_exp_mask || frac > f64_mant_mask) {
         return f64_result { 0, -1 };
     }
     v = f64_pack_float(f64_struct{frac, fexp, sign});
-- 
2.43.0


From 943a598bd630c1b70719ca09d5286e9819ca7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 24/59] fix: refuse special REAL values whose length is not one

---
 src/asn1.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 5c18d3f..408ba55 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1030,6 +1030,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1111,6 +1114,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
-- 
2.43.0


From 22bfe087c008382816e6affed55cff3e4bf81b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 25/59] fix: refuse REAL values in a base or scale that is not
 supported

---
 src/asn1.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 408ba55..2b12bc9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -925,6 +925,16 @@ static _real_fmt _asn1_real_format(u8 x)
     return (_real_fmt)((x >> _real_fmt_shift) & _real_fmt_mask);
 }
 
+static _real_base _asn1_real_base(u8 x)
+{
+    return (_real_base)((x >> _real_base_shift) & _real_base_mask);
+}
+
+static u8 _asn1_real_scale(u8 x)
+{
+    return (x >> _real_scale_shift) & _real_scale_mask;
+}
+
 static _real_exp _asn1_real_exp(u8 x)
 {
     return (_real_exp)((x >> _real_exp_shift) & _real_exp_mask);
@@ -1045,6 +1055,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
+    if (_asn1_real_base(b) != _real_base_2 || _asn1_real_scale(b) != 0) {
+        goto err;
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
@@ -1129,6 +1142,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_fmt_binary_neg: sign = true; break;
     default: return f64_result { 0, -1 };
     }
+    if (_asn1_real_base(b) != _real_base_2 || _asn1_real_scale(b) != 0) {
+        return f64_result { 0, -1 };
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
-- 
2.43.0


From 8821ca00dafc3e4b177096931003068daaf18d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 26/59] fix: use the X.690 codes for the REAL values NaN and
 minus zero

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2b12bc9..e99d6a8 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -916,8 +916,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From 6058adab844b05f9258368d03b9cae4440307bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 27/59] fix: refuse vf numbers whose exponent is out of range
 instead of asserting

---
 src/asn1.cc | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e99d6a8..ac2f14b 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1435,8 +1435,13 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
+            if (vr_exp < -(s64)(f64_exp_bias + f64_mant_size)) {
+                goto err;
+            }
             size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            if (sh > f64_mant_size + 1) {
+                goto err;
+            }
             vp_exp = 0;
             vp_man = (u64)vr_man << sh;
         } else {
@@ -1444,6 +1449,9 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
+            if (vp_exp >= (s64)f64_exp_mask) {
+                goto err;
+            }
             vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
         }
     }
@@ -1537,8 +1545,13 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
+            if (vr_exp < -(s64)(f64_exp_bias + f64_mant_size)) {
+                return f64_result { 0, -1 };
+            }
             size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            if (sh > f64_mant_size + 1) {
+                return f64_result { 0, -1 };
+            }
             vp_exp = 0;
             vp_man = (u64)vr_man << sh;
         } else {
@@ -1546,6 +1559,9 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
+            if (vp_exp >= (s64)f64_exp_mask) {
+                return f64_result { 0, -1 };
+            }
             vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
         }
     }
@@ -1907,8 +1923,13 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
+            if (vr_exp < -(s32)(f32_exp_bias + f32_mant_size)) {
+                goto err;
+            }
             size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            if (sh > f32_mant_size + 1) {
+                goto err;
+            }
             vp_exp = 0;
             vp_man = (u32)vr_man << sh;
         } else {
@@ -1916,6 +1937,9 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
+            if (vp_exp >= (s32)f32_exp_mask) {
+                goto err;
+            }
             vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
         }
     }
@@ -2014,8 +2038,13 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
+            if (vr_exp < -(s32)(f32_exp_bias + f32_mant_size)) {
+                return f32_result { 0, -1 };
+            }
             size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            if (sh > f32_mant_size + 1) {
+                return f32_result { 0, -1 };
+            }
             vp_exp = 0;
             vp_man = (u32)vr_man << sh;
         } else {
@@ -2023,6 +2052,9 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
+            if (vp_exp >= (s32)f32_exp_mask) {
+                return f32_result { 0, -1 };
+            }
             vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
         }
     }
-- 
2.43.0


From 4b5490ef04b960daf8f1ee2861257a97c314123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 28/59] fix: crefltool reports input files it cannot read

---
 tool/crefltool.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..b7703a5 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,13 +27,21 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static void read_db(decl_db *db, const char *input)
+{
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
         db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        read_db(db_in[i], input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
@@ -55,7 +63,7 @@ void do_emit(const char *output, const char *input, const char *name)
     const size_t w = 16;
 
     db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -82,7 +90,7 @@ void do_emit(const char *output, const char *input, const char *name)
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -91,7 +99,7 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 void do_stats(const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 122d322e4802777cad47e39dd06f0d6d99bb536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 29/59] fix: crefltool --merge reports output files it cannot
 write

---
 tool/crefltool.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index b7703a5..9258933 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -47,7 +47,10 @@ void do_merge(const char *output, const char **input, size_t n)
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
-- 
2.43.0


From d3b9ba4992cde35173e7f9f6939f0fbc77f5bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 30/59] fix: crefltool --emit reports output files it cannot
 write

---
 tool/crefltool.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9258933..ed98578 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -84,8 +84,11 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    bool err = ferror(f);
+    if (fclose(f) != 0 || err) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 1675d001a3ef03d445a3f4bcd951471e3c6a3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 31/59] fix: asn1tool prints the last digit of object
 identifiers

---
 tool/asn1tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..11cf442 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -24,6 +24,7 @@ static std::string oid_str(const char *data, size_t sz)
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
     s.resize(len+1);
+    len++;
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From 521f1402eec0c32d847ea018e2c2b9b9222f44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 32/59] fix: asn1tool refuses elements that do not fit in their
 parent or the file

---
 tool/asn1tool.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 11cf442..ad47ec9 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -58,6 +58,9 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
 
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+
     indent = std::string(depth, ' ');
     indent += indent;
     undent = std::string(15-depth, ' ');
-- 
2.43.0


From 580faa54e31a065d9383e9409a35964d30808b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 33/59] fix: asn1tool lists the elements of a set or sequence
 up to its own end

---
 tool/asn1tool.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index ad47ec9..e844eb4 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -75,12 +75,11 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        limit = current + hdr._length;
+        while ((offset = crefl_buf_offset(buf)) < limit) {
+            int ret = read_asn1(buf, offset, limit, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+        }
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
@@ -123,9 +122,12 @@ static void dump_asn1(const char *filename)
     if (crefl_read_file(v, filename) != 0) return;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
-        fprintf(stderr, "error: recurse_asn1 returned an error\n");
-    }
+    do {
+        if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
+            fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            break;
+        }
+    } while (crefl_buf_offset(buf) < v.size());
 }
 
 int main(int argc, const char **argv)
-- 
2.43.0


From ec36d6f6746bb7c0b975c63f1e5dacf3048f1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 34/59] fix: asn1tool survives deeply nested elements

---
 tool/asn1tool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index e844eb4..918cccd 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -47,12 +47,17 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+/* limit on nested sets and sequences, so that no file exhausts the stack */
+enum { max_depth = 256 };
+
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
     size_t current;
 
+    if (depth > max_depth) goto err;
+
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
@@ -63,7 +68,7 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
     printf("[%5zu;%-5llu]%s|-%c%-20s",
-- 
2.43.0


From ba4f848dbe97836fd9a77518a4b729b9c0478e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 35/59] fix: asn1tool exits with failure when it could not list
 the file

---
 tool/asn1tool.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 918cccd..d9766f4 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -121,18 +121,21 @@ err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) return -1;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     do {
         if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
             fprintf(stderr, "error: recurse_asn1 returned an error\n");
-            break;
+            crefl_buf_destroy(buf);
+            return -1;
         }
     } while (crefl_buf_offset(buf) < v.size());
+    crefl_buf_destroy(buf);
+    return 0;
 }
 
 int main(int argc, const char **argv)
@@ -142,8 +145,7 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
-    exit(0);
+    exit(dump_asn1(argv[2]) < 0 ? 1 : 0);
 
 help_exit:
     fprintf(stderr, "usage: %s [--dump] <filename.refl>\n", argv[0]);
-- 
2.43.0


From b8e0f2fd0c315dfcbd47e25dfb5bd301894d59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 36/59] fix: crefl_db_dump_row does not use an index that does
 not exist

---
 src/dump.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..fd8ec8a 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -290,7 +290,21 @@ static void _row(const crefl_field ** fields, decl_db *db, decl_ref r)
 
 void crefl_db_header_names() { _header_names(fields); }
 void crefl_db_header_lines() { _header_lines(fields); }
-void crefl_db_dump_row(decl_db *db, decl_ref r) { _row(fields, db, r); }
+
+void crefl_db_dump_row(decl_db *db, decl_ref r)
+{
+    /* rows show hashes and full names, which need an index */
+    bool scan = !ld;
+    if (scan) {
+        ld = crefl_index_new();
+        crefl_index_scan(ld, db);
+    }
+    _row(fields, db, r);
+    if (scan) {
+        crefl_index_destroy(ld);
+        ld = NULL;
+    }
+}
 
 void crefl_db_dump(decl_db *db)
 {
@@ -305,6 +319,7 @@ void crefl_db_dump(decl_db *db)
     crefl_db_header_lines();
 
     crefl_index_destroy(ld);
+    ld = NULL;
 }
 
 void crefl_db_set_dump_fmt(enum crefl_db_dump_fmt fmt)
-- 
2.43.0


From 12afd37c2b5e0cd954d601b9a7765a3fca512f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 37/59] fix: string_printf keeps the end of strings of 255 and
 256 characters

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 78d1856..8547506 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From cd9468df6dc4e5506475fbaa2d066dd682e7eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 38/59] fix: pad byte types to 8 bits and not to 256

The alignment is the base 2 logarithm of the number of bits, so a bool
was 256 bits wide and moved every field behind it.
---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..356f9c8 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -253,7 +253,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From 8793df9f1b5076a45b3a21082d010b4d8b477d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 39/59] fix: align types to at most 16 bytes as documented

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 356f9c8..e9b87f6 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,7 +248,7 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const intptr_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
-- 
2.43.0


From 79ac8d9a779b5bef67654f9407696ca5c9bfe7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 40/59] fix: pad the width of a union to its alignment

Elements of an array of unions and fields behind a union overlapped or
were misaligned when the largest member was not the most aligned one.
---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index e9b87f6..ee0fc9b 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -340,7 +340,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From 4f1914b8a2c3e5b81daf08b4babbddd0fc5f7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 41/59] fix: give typedef, qualified, enum and set types their
 width

The width of these types was 0, so struct fields of such a type
overlapped the next field.
---
 src/model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index ee0fc9b..67757e1 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -352,6 +352,11 @@ static _alignment _type_pad(decl_ref d)
     case _decl_field: return _field_pad(d);
     case _decl_array: return _array_pad(d);
     case _decl_pointer: return _pointer_pad(d);
+    case _decl_typedef:
+    case _decl_qualifier: return _type_pad(crefl_decl_link(d));
+    case _decl_set:
+    case _decl_enum: return crefl_decl_qty(d) ?
+        _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
     }
     return _alignment { 0 };
 }
-- 
2.43.0


From a0f9d378838082de27a9abcc5ab2ea4c66987e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 42/59] fix: do not write to a declaration moved while its type
 was created

---
 src/reflect.cc | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..258dbae 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -476,8 +476,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create typedef */
         decl_ref r = create_named_node(d, _decl_typedef);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_ref tr = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(tr);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -503,7 +505,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
         crefl_decl_ptr(r)->_width = t.Width;
 
         stack.push_back(r);
@@ -529,9 +532,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create constant */
         decl_ref r = create_named_node(d, _decl_constant);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref tr = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(tr);
         crefl_decl_ptr(r)->_value = value;
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -569,7 +574,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
             /* create struct */
             decl_ref r = create_named_node(d, tag);
-            crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+            decl_id attr = create_attributes(d, r);
+            crefl_decl_ptr(r)->_attr = attr;
 
             stack.push_back(r);
             last = decl_ref { db, 0 };
@@ -598,10 +604,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref tr = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(tr);
         crefl_decl_ptr(r)->_width = width;
         crefl_decl_ptr(r)->_props |= (-(int)d->isBitField() & _decl_bitfield);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -620,7 +628,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create function */
         decl_ref r = create_named_node(d, _decl_function);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isGlobal() & _decl_global) |
             (-(int)d->isExternC() & _decl_extern_c) |
@@ -635,7 +644,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create return param */
         decl_ref pr = crefl_decl_new(db, _decl_param);
         crefl_decl_ptr(last)->_link = crefl_decl_idx(pr);
-        crefl_decl_ptr(pr)->_link = crefl_decl_idx(get_intrinsic_type(qr));
+        decl_ref tr = get_intrinsic_type(qr);
+        crefl_decl_ptr(pr)->_link = crefl_decl_idx(tr);
         crefl_decl_ptr(pr)->_props |= _decl_out;
 
         /* create argument params */
@@ -648,7 +658,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             crefl_decl_ptr(ar)->_name = crefl_name_new(db,
                 parm->NamedDecl::getNameAsString().c_str());
             crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);
-            crefl_decl_ptr(ar)->_link = crefl_decl_idx(get_intrinsic_type(q));
+            decl_ref tr = get_intrinsic_type(q);
+            crefl_decl_ptr(ar)->_link = crefl_decl_idx(tr);
             pr = ar;
         }
 
@@ -672,11 +683,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         decl_ref r = create_named_node(d, _decl_field);
         const QualType q = d->getTypeSourceInfo()->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref tr = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(tr);
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isExternC() & _decl_extern_c) |
             (-(int)is_static & _decl_static);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
-- 
2.43.0


From 168609e195a72059b81349ac5e517edd6a610a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 43/59] fix: do not crash on declarations inside function
 bodies

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 258dbae..5e7e01f 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -393,7 +393,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* find parent id */
         const auto& parents = context.getParents(*d);
         decl_ref p = {
-            db, parents.size() > 0 ? idmap[parents[0].get<Decl>()->getID()] : 0
+            db, parents.size() > 0 && parents[0].get<Decl>() ?
+                idmap[parents[0].get<Decl>()->getID()] : 0
         };
 
         /* pop until parent matches */
-- 
2.43.0


From 3ed15d556091e8fc2b0380fefc56212d82b82269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 44/59] fix: keep all attributes of a declaration

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 5e7e01f..e3985a9 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From 248dbe993ab133e88c691ebec7182280b4ec819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 45/59] fix: link types referenced before their definition

---
 src/reflect.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index e3985a9..7fda091 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,20 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    decl_ref get_tag_type(const TagDecl *td, decl_tag tag)
+    {
+        decl_id id = idmap[td->getID()];
+        if (id) return decl_ref { db, id };
+
+        /* referenced before its definition, which will use this node */
+        decl_ref r = crefl_decl_new(db, tag);
+        crefl_decl_ptr(r)->_name = crefl_name_new(db,
+            td->getNameAsString().c_str());
+        idmap[td->getID()] = crefl_decl_idx(r);
+
+        return r;
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -267,17 +281,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_tag_type(ed, _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,8 +396,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
+        /* create node unless it has been referenced before */
+        decl_id id = idmap[d->Decl::getID()];
+        decl_ref r = id ? decl_ref { db, id } : crefl_decl_new(db, tag);
         crefl_decl_ptr(r)->_name = crefl_name_new(db,
             d->NamedDecl::getNameAsString().c_str());
 
-- 
2.43.0


From 93b097665a066d93b099c6220010d6dc8ba51514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 46/59] fix: keep qualifiers that come with a typedef

---
 src/reflect.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 7fda091..b13ec04 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -259,9 +259,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_union = q->isUnionType();
         bool _is_struct = q->isStructureOrClassType();
         bool _is_enum = q->isEnumeralType();
-        bool _is_const = (q.getLocalFastQualifiers() & Qualifiers::Const);
-        bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
-        bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
+
+        /* qualifiers of arrays named by typedefs belong to their elements */
+        unsigned quals = _is_array ?
+            q.getLocalFastQualifiers() : q.getCVRQualifiers();
+        bool _is_const = (quals & Qualifiers::Const);
+        bool _is_restrict = (quals & Qualifiers::Restrict);
+        bool _is_volatile = (quals & Qualifiers::Volatile);
 
         if (!_is_array && q->isIncompleteType()) return tr;
 
-- 
2.43.0


From ab5a95a20197d8d33a3c9d323ae8659ef8702062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 47/59] fix: keep qualifiers of void and incomplete types

---
 src/reflect.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index b13ec04..ac6494a 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -267,11 +267,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = (quals & Qualifiers::Restrict);
         bool _is_volatile = (quals & Qualifiers::Volatile);
 
-        if (!_is_array && q->isIncompleteType()) return tr;
+        bool _is_incomplete = !_is_array && q->isIncompleteType();
 
-        TypeInfo t = context.getTypeInfo(q);
+        TypeInfo t;
+        if (!_is_incomplete) t = context.getTypeInfo(q);
 
-        if (_is_pointer) {
+        if (_is_incomplete) {
+            /* described as void */
+        }
+        else if (_is_pointer) {
             const QualType pq = q->getPointeeType();
             decl_ref ti = get_intrinsic_type(pq);
 
-- 
2.43.0


From cbf5515b306748bd791eb9b82ad1986a7bd6fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 48/59] fix: list anonymous struct and union members as fields

---
 src/reflect.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index ac6494a..38a6bf2 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -453,6 +453,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return props;
     }
 
+    bool TraverseDecl(Decl *d)
+    {
+        /* anonymous struct and union members are implicit fields */
+        FieldDecl *fd = d ? dyn_cast<FieldDecl>(d) : nullptr;
+        if (fd && fd->isAnonymousStructOrUnion()) return VisitFieldDecl(fd);
+
+        return RecursiveASTVisitor::TraverseDecl(d);
+    }
+
     bool VisitPragmaCommentDecl(PragmaCommentDecl *d)
     {
         /* PragmaCommentDecl -> Decl */
-- 
2.43.0


From 288ae2418f14dc9301dddaf6f0574749c97b6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 49/59] fix: fail when the metadata cannot be written or
 arguments are wrong

---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 38a6bf2..3e63837 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -738,7 +738,7 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
         if (argv[i] == "-o") {
             if (++i == argc) {
                 fprintf(stderr, "error: -o requires parameter\n");
-                exit(0);
+                exit(1);
             }
             outputFile = argv[i++];
         } else if (argv[i] == "-debug") {
@@ -747,12 +747,12 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
             ++i; dump = true;
         } else {
             fprintf(stderr, "error: unknown option: %s\n", argv[i].c_str());
-            exit(0);
+            exit(1);
         }
     }
     if (!dump && !debug && !outputFile.size()) {
         fprintf(stderr, "error: missing args: -dump, -debug, -o <outputFile>\n");
-        exit(0);
+        exit(1);
     }
     return true;
 }
@@ -778,7 +778,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
+            fprintf(stderr, "error: writing %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From a0b9a516d6feccacaf1b573d85d5fd8a53022285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 50/59] fix: align complex types like their parts

---
 src/model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model.cc b/src/model.cc
index 67757e1..43eef3e 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -257,6 +257,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
+        if ((props & _decl_complex) && n > 0) n--; /* aligned as its parts */
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From f26e4812b2ca70012c4a0728d0d40f425a84a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 51/59] fix: hash nodes on cycles of references independently
 of the order of visit

---
 src/link.cc | 269 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 194 insertions(+), 75 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 0eef972..c295b5a 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -22,7 +22,10 @@
 #include <cassert>
 #include <cstdlib>
 
+#include <map>
+#include <set>
 #include <string>
+#include <vector>
 
 #include <crefl/bits.h>
 #include <crefl/model.h>
@@ -60,6 +63,9 @@
  * - identical declarations with different ancestors have identical hash sums.
  * - types and interfaces link to dependencies without knowing their names.
  * - type hashes for incomplete types have different sums to complete types.
+ * - type hashes for nodes on a cycle of references are refined in rounds, each
+ *   absorbing sums of the last, until no more nodes of the cycle can be told
+ *   apart. the final hash absorbs the sums of all nodes of the cycle.
  * - semicolon is used as a delimeter as it does not occur in type names.
  * - SHA-224 is used because it is not subject to length extension attacks.
  * - type hashes for functions include parameter names and types. the index
@@ -101,81 +107,149 @@ static void crefl_hash_update(decl_sum *sum, const void *data, size_t len)
     sha224_update(&sum->ctx, data, len);
 }
 
-decl_hash * crefl_node_hash(decl_index *index,
-    decl_ref d, decl_ref p, std::string prefix);
+bool operator==(const decl_hash &a, const decl_hash &b)
+{
+    return memcmp(a.sum, b.sum, sizeof(a.sum)) == 0;
+}
+
+bool operator<(const decl_hash &a, const decl_hash &b)
+{
+    return memcmp(a.sum, b.sum, sizeof(a.sum)) < 0;
+}
+
+/* state of a scan: nodes are grouped into cycles with Tarjan's algorithm */
+struct decl_scan
+{
+    decl_index *index;
+    decl_db *db;
+    std::vector<size_t> order;            /* order of visit by node, or 0 */
+    std::vector<size_t> low;              /* first visited node in reach */
+    std::vector<decl_ref> stack;          /* visited nodes with no hash yet */
+    std::map<decl_hash,decl_hash> cyclic; /* node sum to hash, on cycles */
+    size_t count;
+};
 
-static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
-    decl_ref d, decl_ref p, std::string prefix)
+static void crefl_hash_ref(decl_sum *sum, decl_index *index, decl_ref d)
+{
+    decl_hash *hash = &crefl_entry_ptr(crefl_entry_ref(index, d))->hash;
+    crefl_hash_absorb(sum, hash_delimeter);
+    crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+}
+
+/* follow `link` to child list for container types: 'object',
+ * 'set', 'enum', 'struct', 'union', and 'function' are lists
+ * containing: 'typedef', 'field', 'pointer', 'array', etc. */
+static bool crefl_has_child_list(decl_ref d)
+{
+    switch (crefl_decl_tag(d)) {
+    case _decl_archive:
+    case _decl_source:
+    case _decl_set:
+    case _decl_enum:
+    case _decl_struct:
+    case _decl_union:
+    case _decl_function:
+        return true;
+    /*
+     * follow `link` to child element without processing `next`
+     * for non container types such as 'typedef', 'field', 'pointer',
+     * 'array' and 'param'. following `next` in these node types would
+     * cause cycles from type references to adjacent anonymous types.
+     */
+    default:
+        return false;
+    }
+}
+
+static decl_hash crefl_hash_node_sum(decl_index *index, decl_ref d)
 {
     decl_node *node = crefl_decl_ptr(d);
-    decl_hash *hash;
+    decl_hash hash;
+    decl_sum sum;
     decl_ref next;
 
-    crefl_hash_absorb(sum, tag_delimeter);
-    crefl_hash_absorb(sum, crefl_tag_name(crefl_decl_tag(d)));
-    crefl_hash_absorb(sum, name_delimeter);
-    crefl_hash_absorb(sum, crefl_decl_name(d));
-    crefl_hash_absorb(sum, props_delimeter);
-    crefl_hash_update(sum, &node->_props, sizeof(node->_props));
-    crefl_hash_absorb(sum, quantity_delimeter);
-    crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));
+    crefl_hash_init(&sum);
+    crefl_hash_absorb(&sum, tag_delimeter);
+    crefl_hash_absorb(&sum, crefl_tag_name(crefl_decl_tag(d)));
+    crefl_hash_absorb(&sum, name_delimeter);
+    crefl_hash_absorb(&sum, crefl_decl_name(d));
+    crefl_hash_absorb(&sum, props_delimeter);
+    crefl_hash_update(&sum, &node->_props, sizeof(node->_props));
+    crefl_hash_absorb(&sum, quantity_delimeter);
+    crefl_hash_update(&sum, &node->_quantity, sizeof(node->_quantity));
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
         while (crefl_decl_idx(next)) {
-            crefl_hash_absorb(sum, attr_delimeter);
-            hash = crefl_node_hash(index, next, d, prefix);
-            crefl_hash_absorb(sum, hash_delimeter);
-            crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+            crefl_hash_absorb(&sum, attr_delimeter);
+            crefl_hash_ref(&sum, index, next);
             next = crefl_decl_next(next);
         }
     }
     if (node->_link) {
-        switch (crefl_decl_tag(d)) {
-        /*
-         * follow `link` to child list for container types: 'object',
-         * 'set', 'enum', 'struct', 'union', and 'function' are lists
-         * containing: 'typedef', 'field', 'pointer', 'array', etc.
-         */
-        case _decl_archive:
-        case _decl_source:
-        case _decl_set:
-        case _decl_enum:
-        case _decl_struct:
-        case _decl_union:
-        case _decl_function:
-            crefl_hash_absorb(sum, link_delimeter);
-            next = crefl_lookup(d.db, node->_link);
+        next = crefl_lookup(d.db, node->_link);
+        if (crefl_has_child_list(d)) {
+            crefl_hash_absorb(&sum, link_delimeter);
             while (crefl_decl_idx(next))  {
-                crefl_hash_absorb(sum, next_delimeter);
-                decl_hash *hash = crefl_node_hash(index, next, d, prefix);
-                crefl_hash_absorb(sum, hash_delimeter);
-                crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+                crefl_hash_absorb(&sum, next_delimeter);
+                crefl_hash_ref(&sum, index, next);
                 next = crefl_decl_next(next);
             }
-            break;
-        /*
-         * follow `link` to child element without processing `next`
-         * for non container types such as 'typedef', 'field', 'pointer',
-         * 'array' and 'param'. following `next` in these node types would
-         * cause cycles from type references to adjacent anonymous types.
-         */
-        default:
-            next = crefl_lookup(d.db, node->_link);
-            if (crefl_entry_is_marked(crefl_entry_ref(index, next)) &&
-                !crefl_entry_is_valid(crefl_entry_ref(index, next))) {
-                /* we have a reference to a node that is being hashed */
-                crefl_hash_absorb(sum, crefl_tag_name(crefl_decl_tag(next)));
-                crefl_hash_absorb(sum, crefl_decl_name(next));
-            } else {
-                hash = crefl_node_hash(index, next, d, prefix);
-                crefl_hash_absorb(sum, hash_delimeter);
-                crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
-            }
-            break;
+        } else {
+            crefl_hash_ref(&sum, index, next);
         }
     }
-    crefl_hash_absorb(sum, end_delimeter);
+    crefl_hash_absorb(&sum, end_delimeter);
+    crefl_hash_final(&sum, &hash);
+
+    return hash;
+}
+
+/* hash the nodes of a cycle, all other nodes they refer to are hashed */
+static void crefl_hash_cycle(decl_scan *scan, const std::vector<decl_ref> &nodes)
+{
+    decl_index *index = scan->index;
+    std::vector<decl_hash> sums(nodes.size());
+    std::set<std::pair<decl_hash,decl_hash>> last;
+    size_t classes = 0;
+
+    for (;;) {
+        std::set<decl_hash> seen;
+        last.clear();
+        for (size_t i = 0; i < nodes.size(); i++) {
+            sums[i] = crefl_hash_node_sum(index, nodes[i]);
+            seen.insert(sums[i]);
+            last.insert({ crefl_entry_ptr(crefl_entry_ref(index,
+                nodes[i]))->hash, sums[i] });
+        }
+        if (seen.size() == classes) break;
+        classes = seen.size();
+        for (size_t i = 0; i < nodes.size(); i++) {
+            crefl_entry_ptr(crefl_entry_ref(index, nodes[i]))->hash = sums[i];
+        }
+    }
+
+    decl_sum sum;
+    decl_hash all;
+    crefl_hash_init(&sum);
+    for (auto &i : last) {
+        crefl_hash_update(&sum, i.first.sum, sizeof(decl_hash));
+        crefl_hash_update(&sum, i.second.sum, sizeof(decl_hash));
+    }
+    crefl_hash_final(&sum, &all);
+
+    for (size_t i = 0; i < nodes.size(); i++) {
+        crefl_hash_init(&sum);
+        crefl_hash_update(&sum, sums[i].sum, sizeof(decl_hash));
+        crefl_hash_update(&sum, all.sum, sizeof(decl_hash));
+        crefl_hash_final(&sum,
+            &crefl_entry_ptr(crefl_entry_ref(index, nodes[i]))->hash);
+    }
+    for (size_t i = 0; i < nodes.size(); i++) {
+        decl_hash sum = crefl_hash_node_sum(index, nodes[i]);
+        scan->cyclic[sum] =
+            crefl_entry_ptr(crefl_entry_ref(index, nodes[i]))->hash;
+    }
 }
 
 int crefl_entry_is_marked(decl_entry_ref er)
@@ -220,25 +294,70 @@ std::string crefl_node_name(decl_ref d, decl_ref p, std::string prefix)
     }
 }
 
-decl_hash * crefl_node_hash(decl_index *index, decl_ref d, decl_ref p, std::string prefix)
+static void crefl_node_hash(decl_scan *scan, decl_ref d, decl_ref p, std::string prefix);
+
+static bool crefl_scan_ref(decl_scan *scan, decl_ref d, decl_ref p, std::string prefix)
+{
+    decl_entry_ref er = crefl_entry_ref(scan->index, d);
+    size_t i = crefl_decl_idx(d), j = crefl_decl_idx(p);
+
+    if (!crefl_entry_is_valid(er) && !scan->order[i]) {
+        crefl_node_hash(scan, d, p, prefix);
+    }
+    if (!crefl_entry_is_valid(er) && scan->low[i] < scan->low[j]) {
+        scan->low[j] = scan->low[i];
+    }
+    return i == j;
+}
+
+static void crefl_node_hash(decl_scan *scan, decl_ref d, decl_ref p, std::string prefix)
 {
+    decl_index *index = scan->index;
     decl_entry_ref er = crefl_entry_ref(index, d);
-    decl_entry *ent = crefl_entry_ptr(er);
+    decl_node *node = crefl_decl_ptr(d);
+    size_t i = crefl_decl_idx(d), base = scan->stack.size();
+    bool self = false;
+    decl_ref next;
 
     prefix = crefl_node_name(d, p, prefix);
 
-    if ((ent->props & decl_entry_valid) != decl_entry_valid) {
-        decl_sum sum;
-        ent->props |= decl_entry_marked;
-        crefl_hash_init(&sum);
-        crefl_hash_node_sum(&sum, index, d, p, prefix);
-        ent = crefl_entry_ptr(er); /* revalidate due to realloc */
-        crefl_hash_final(&sum, &ent->hash);
-        ent->fqn = crefl_entry_name_new(index, prefix.c_str());
-        ent->props |= decl_entry_valid;
+    crefl_entry_ptr(er)->props |= decl_entry_marked;
+    memset(&crefl_entry_ptr(er)->hash, 0, sizeof(decl_hash));
+    scan->order[i] = scan->low[i] = ++scan->count;
+    scan->stack.push_back(d);
+
+    if (node->_attr) {
+        next = crefl_lookup(d.db, node->_attr);
+        while (crefl_decl_idx(next)) {
+            self |= crefl_scan_ref(scan, next, d, prefix);
+            next = crefl_decl_next(next);
+        }
     }
+    if (node->_link) {
+        next = crefl_lookup(d.db, node->_link);
+        do {
+            self |= crefl_scan_ref(scan, next, d, prefix);
+            next = crefl_decl_next(next);
+        } while (crefl_has_child_list(d) && crefl_decl_idx(next));
+    }
+
+    crefl_entry_ptr(er)->fqn = crefl_entry_name_new(index, prefix.c_str());
 
-    return &ent->hash;
+    /* hash nodes visited since, if none of them refers to an earlier one */
+    if (scan->low[i] == scan->order[i]) {
+        std::vector<decl_ref> nodes(scan->stack.begin() + base, scan->stack.end());
+        scan->stack.resize(base);
+        if (nodes.size() > 1 || self) {
+            crefl_hash_cycle(scan, nodes);
+        } else {
+            decl_hash sum = crefl_hash_node_sum(index, d);
+            auto ci = scan->cyclic.find(sum);
+            crefl_entry_ptr(er)->hash = ci == scan->cyclic.end() ? sum : ci->second;
+        }
+        for (auto &n : nodes) {
+            crefl_entry_ptr(crefl_entry_ref(index, n))->props |= decl_entry_valid;
+        }
+    }
 }
 
 decl_index * crefl_index_new()
@@ -307,7 +426,12 @@ const char* crefl_entry_fqn(decl_entry_ref d)
 void crefl_index_scan(decl_index *index, decl_db *db)
 {
     decl_ref d = crefl_lookup(db, db->root_element);
-    crefl_node_hash(index, d, crefl_decl_void(d), "");
+    decl_scan scan = { index, db };
+    scan.order.resize(db->decl_offset);
+    scan.low.resize(db->decl_offset);
+    if (!crefl_entry_is_valid(crefl_entry_ref(index, d))) {
+        crefl_node_hash(&scan, d, crefl_decl_void(d), "");
+    }
 }
 
 static std::string _hex_str(const uint8_t *data, size_t sz)
@@ -326,11 +450,6 @@ struct _hash_fn
     size_t operator()(const decl_hash &h) const { return ((size_t*)h.sum)[0]; }
 };
 
-bool operator==(const decl_hash &a, const decl_hash &b)
-{
-    return memcmp(a.sum, b.sum, sizeof(a.sum)) == 0;
-}
-
 struct crefl_link_state
 {
     hashmap<decl_hash,decl_ref,_hash_fn> *map;
-- 
2.43.0


From 25ba290ef3ef39320abdea436beb89da2b728dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:42 +0000
Subject: [PATCH 52/59] fix: describe the contents of records the compiler
 declares itself

The structure behind va_list was created on first use but never
filled in, so va_list and everything containing it had no width.
---
 src/reflect.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 3e63837..ecc7037 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -244,6 +244,25 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             td->getNameAsString().c_str());
         idmap[td->getID()] = crefl_decl_idx(r);
 
+        /* types the compiler declares itself are not visited */
+        const RecordDecl *rd = dyn_cast<RecordDecl>(td);
+        if (rd && rd->isImplicit() && rd->isCompleteDefinition()) {
+            decl_ref prev = { db, 0 };
+            for (const FieldDecl *fd : rd->fields()) {
+                decl_ref fr = crefl_decl_new(db, _decl_field);
+                crefl_decl_ptr(fr)->_name = crefl_name_new(db,
+                    fd->getNameAsString().c_str());
+                if (crefl_decl_idx(prev)) {
+                    crefl_decl_ptr(prev)->_next = crefl_decl_idx(fr);
+                } else {
+                    crefl_decl_ptr(r)->_link = crefl_decl_idx(fr);
+                }
+                decl_ref tr = get_intrinsic_type(fd->getType());
+                crefl_decl_ptr(fr)->_link = crefl_decl_idx(tr);
+                prev = fr;
+            }
+        }
+
         return r;
     }
 
-- 
2.43.0


From 47d58490084bac45c0d967669dfc5232f42c3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 53/59] fix: copy a name taken from the database's own name
 table correctly when the table moves

---
 src/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index 43eef3e..7a3ee6b 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -175,10 +175,14 @@ decl_id crefl_name_new(decl_db *db, const char *name)
     size_t len = strlen(name) + 1;
     if (len == 1) return 0;
     if (db->name_offset + len > db->name_size) {
+        /* the name can be one from this table, which moves */
+        size_t held_offset = (uintptr_t)name - (uintptr_t)db->name;
+        bool held = held_offset < db->name_offset;
         while (db->name_offset + len > db->name_size) {
             db->name_size <<= 1;
         }
         db->name = (char*)realloc(db->name, db->name_size);
+        if (held) name = db->name + held_offset;
     }
     size_t name_offset = db->name_offset;
     db->name_offset += len;
-- 
2.43.0


From 07a4c2b679cb01765b97a3e538d0fe42434be6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 54/59] fix: keep the key while operator[] grows the hash map,
 as it can refer to an entry

---
 include/crefl/hashmap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index cf0fade..188db69 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -302,12 +302,14 @@ struct hashmap
                 used++;
                 if ((state & deleted) == deleted) tombs--;
                 if (load() > load_factor) {
+                    /* the key can refer to an entry, which moves */
+                    const Key k = data[i].first;
                     resize_internal(data, bitmap, limit, limit << 1);
-                    for (i = key_index(key);; i = (i+1) & index_mask()) {
+                    for (i = key_index(k);; i = (i+1) & index_mask()) {
                         bitmap_state state = bitmap_get(bitmap, i);
                              if (state == available) abort();
                         else if (state == deleted); /* skip */
-                        else if (_compare(data[i].first, key)) {
+                        else if (_compare(data[i].first, k)) {
                             return data[i].second;
                         }
                     }
-- 
2.43.0


From d2d04eefcfe594c7182b583f392389cd15679c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:40 +0000
Subject: [PATCH 55/59] fix: exit with failure when the output of a command
 could not be written in full

---
 tool/crefltool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index ed98578..ee3ac9a 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -175,6 +175,10 @@ int main(int argc, const char **argv)
         case _merge: do_merge(argv[2], argv + 3, argc - 3); break;
         case _emit: do_emit(argv[2], argv[3], "main"); break;
     }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        exit(1);
+    }
     exit(0);
 
 help_exit:
-- 
2.43.0


From fbb55899a6bd1b6fdc09ecad7b9d667bd90fdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 56/59] fix: exit with failure when the listing of an ASN.1
 file could not be written in full

---
 tool/asn1tool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index d9766f4..0fc9e33 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -135,6 +135,10 @@ static int dump_asn1(const char *filename)
         }
     } while (crefl_buf_offset(buf) < v.size());
     crefl_buf_destroy(buf);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From c6f2d4ffea58ae57969c4fc4b3711bb13f9a3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 57/59] fix: fail when the listing asked for with -dump could
 not be written in full

---
 src/reflect.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index ecc7037..73cb807 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -795,6 +795,10 @@ void ReflectAction::EndSourceFileAction()
     v.TraverseDecl(context.getTranslationUnitDecl());
     if (dump) {
         crefl_db_dump(db);
+        if (fflush(stdout) != 0 || ferror(stdout)) {
+            fprintf(stderr, "error: writing output\n");
+            exit(1);
+        }
     }
     if (outputFile.size()) {
         if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
-- 
2.43.0


From c07071a9ddb2b8df12fc277670ae6bba3e065ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 58/59] fix: refuse integer reads and writes at a buffer
 position that wraps around

---
 include/crefl/buf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index dab4879..7b832eb 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -102,7 +102,7 @@ static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     *(T*)(buf->data + buf->data_offset) = t;                                   \
     buf->data_offset += sizeof(T);                                             \
@@ -119,7 +119,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = *(T*)(buf->data + buf->data_offset);                                 \
     *val = swap(t);                                                            \
     buf->data_offset += sizeof(T);                                             \
@@ -138,7 +138,7 @@ static inline size_t CREFL_FN(buf_read_unchecked,suffix)(crefl_buf *buf, T* val)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     memcpy(buf->data + buf->data_offset, &t, sizeof(T));                       \
     buf->data_offset += sizeof(T);                                             \
@@ -155,7 +155,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t;                                                                       \
     memcpy(&t, buf->data + buf->data_offset, sizeof(T));                       \
     *val = swap(t);                                                            \
@@ -183,7 +183,7 @@ CREFL_BUF_READ_IMPL(i64,int64_t,le64)
 
 static inline size_t crefl_buf_read_i8(crefl_buf *buf, int8_t* val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *val = *(int8_t*)(buf->data + buf->data_offset);
     buf->data_offset++;
     return 1;
@@ -198,7 +198,7 @@ static inline size_t crefl_buf_read_unchecked_i8(crefl_buf *buf, int8_t* val)
 
 static inline size_t crefl_buf_write_i8(crefl_buf *buf, int8_t val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *(int8_t*)(buf->data + buf->data_offset) = val;
     buf->data_offset++;
     return 1;
-- 
2.43.0


From 4c5f585bdf1848576f8833c2d4035b0702ad2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 59/59] fix: nothing remains in a buffer whose position is
 behind its end

---
 include/crefl/buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index 7b832eb..f4a5836 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -286,8 +286,10 @@ static inline size_t crefl_buf_offset(crefl_buf* buf)
 
 static inline crefl_span crefl_buf_remaining(crefl_buf* buf)
 {
+    size_t offset = buf->data_offset < buf->data_size ?
+        buf->data_offset : buf->data_size;
     crefl_span s = {
-        &buf->data[buf->data_offset], buf->data_size - buf->data_offset
+        &buf->data[offset], buf->data_size - offset
     };
     return s;
 }
-- 
2.43.0

