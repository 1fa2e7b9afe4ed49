From 7668363bae3e68db7245cbe1285e3c66c52ad6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 01/50] fix: reject entries whose type byte is not a known
 entry type

dnstable_entry_decode() returned a phantom RRset entry (all fields zero,
NULL name) for keys starting with an unassigned type byte.
---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..86fcd7a 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -851,6 +851,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From c6bd5ecb6ac1fe17534877c39230982803ac3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 02/50] fix: dnstable_entry_get_rdata must reject the index one
 past the last rdata

The off-by-one let i == num_rdata through to the vector's bounds assertion.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 86fcd7a..be50316 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -999,7 +999,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From 5b73452b3daf4da4ebe8791d29aa53e86a3f93f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 03/50] fix: never decode a varint past the end of its buffer

The decoders checked the buffer bound only after mtbl_varint_decode*() had
already read up to 5 or 10 bytes past it, and treated a malformed varint
(length 0) as success: a run of five continuation bytes in the rdata array
of an RRset key made decode_rrset() loop forever, and a corrupt triplet,
pair, version or rrtype was decoded from memory beyond the value.
---
 dnstable/dnstable-private.h | 30 ++++++++++++++++++++++++++++++
 dnstable/entry.c            | 23 ++++++++++++++---------
 dnstable/merge.c            |  4 ++--
 dnstable/query.c            | 12 ++++++++----
 dnstable/triplet.c          | 31 ++++++++++++++++++++++---------
 5 files changed, 76 insertions(+), 24 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..ca5c50c 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -109,6 +109,36 @@ bytes_compare(const uint8_t *a, size_t len_a,
 	return (ret);
 }
 
+/*
+ * Decode a varint which must be wholly contained in [p, end). Returns the
+ * number of bytes used, or 0 if the varint is truncated or too long.
+ */
+static inline size_t
+varint_decode32_bounded(const uint8_t *p, const uint8_t *end, uint32_t *value)
+{
+	unsigned len;
+
+	if (p >= end)
+		return (0);
+	len = mtbl_varint_length_packed(p, end - p);
+	if (len == 0 || len > 5)
+		return (0);
+	return (mtbl_varint_decode32(p, value));
+}
+
+static inline size_t
+varint_decode64_bounded(const uint8_t *p, const uint8_t *end, uint64_t *value)
+{
+	unsigned len;
+
+	if (p >= end)
+		return (0);
+	len = mtbl_varint_length_packed(p, end - p);
+	if (len == 0 || len > 10)
+		return (0);
+	return (mtbl_varint_decode64(p, value));
+}
+
 struct dnstable_iter *
 dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
 
diff --git a/dnstable/entry.c b/dnstable/entry.c
index be50316..6d9d07a 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -631,7 +631,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *p = buf;
 	const uint8_t *end = buf + len_buf;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name;
+	size_t len_name, len_varint;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -646,9 +646,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
+	if (len_varint == 0)
 		return (dnstable_res_failure);
+	p += len_varint;
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -667,7 +668,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		len_varint = varint_decode32_bounded(p, end, &len_rdata);
+		if (len_varint == 0)
+			return (dnstable_res_failure);
+		p += len_varint;
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
@@ -723,7 +727,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *data;
 	const uint8_t *slice;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name, len_slice;
+	size_t len_name, len_slice, len_varint;
 	wdns_rdata_t *rdata;
 
 	if (len_buf < sizeof(uint16_t))
@@ -741,9 +745,10 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
+	if (len_varint == 0)
 		return (dnstable_res_failure);
+	p += len_varint;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -803,8 +808,8 @@ decode_version(struct dnstable_entry *e,
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
-	if (len == len_val)
+	len = varint_decode32_bounded(val, val + len_val, &e->version);
+	if (len != 0 && len == len_val)
 		return (dnstable_res_success);
 
 	return (dnstable_res_failure);
diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..c1a86b5 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -256,9 +256,9 @@ dnstable_merge_func(void *clos,
 			return;
 		}
 
-		len = mtbl_varint_decode32(val0, &vers0);
+		len = varint_decode32_bounded(val0, val0 + len_val0, &vers0);
 		assert(len == len_val0);
-		len = mtbl_varint_decode32(val1, &vers1);
+		len = varint_decode32_bounded(val1, val1 + len_val1, &vers1);
 		assert(len == len_val1);
 		minvers = (vers0 < vers1)?vers0:vers1;
 
diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..d95aa71 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -769,7 +769,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +805,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (varint_decode32_bounded(&key[len+1], &key[len_key], &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -823,7 +824,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_varint;
 	uint32_t rrtype;
 
 	*match = false;
@@ -833,7 +834,10 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
+	len_varint = varint_decode32_bounded(&key[len], &key[len_key], &rrtype);
+	if (len_varint == 0)
+		return (mtbl_res_success);
+	len += len_varint;
 	if (len >= len_key)
 		return (mtbl_res_success);
 
diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..7f05207 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -29,11 +29,16 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
-	if (bytes_read == len_buf)
+	const uint8_t *p = buf, *end = buf + len_buf;
+	uint64_t *vals[] = { val1, val2, val3 };
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_decode64_bounded(p, end, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
+	}
+	if (p == end)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
@@ -50,10 +55,18 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	if (bytes_read == len_buf)
+	const uint8_t *p = buf, *end = buf + len_buf;
+	size_t len;
+
+	len = varint_decode64_bounded(p, end, val1);
+	if (len == 0)
+		return (dnstable_res_failure);
+	p += len;
+	len = varint_decode64_bounded(p, end, val2);
+	if (len == 0)
+		return (dnstable_res_failure);
+	p += len;
+	if (p == end)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
-- 
2.43.0


From e0581f737b6436db99ff0848a6f2aecf88a497d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 04/50] fix: validate the name of RRset-name and rdata-name
 index entries

The name of these two entry types was taken over without checking that it
is one well-formed domain name: an empty key made wdns_reverse_name() write
before a zero-length allocation, and a name longer than 255 bytes
overflowed the presentation-format buffers of the formatters.
---
 dnstable/entry.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 6d9d07a..81d16d2 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -692,6 +692,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success)
+		return (dnstable_res_failure);
+	if (len_name != len_buf)
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -705,6 +711,12 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success)
+		return (dnstable_res_failure);
+	if (len_name != len_buf)
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From 99418a62aead363ab4d3525bd86d98230f2f1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 05/50] fix: reject RRset and rdata entries whose rrtype does
 not fit 16 bits

Such a value was truncated by dnstable_entry_get_rrtype() and overflowed
the 3-byte varint buffer of the raw rdata formatter.
---
 dnstable/entry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 81d16d2..5f6605c 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -647,7 +647,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* rrtype */
 	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
-	if (len_varint == 0)
+	if (len_varint == 0 || e->rrtype > USHRT_MAX)
 		return (dnstable_res_failure);
 	p += len_varint;
 
@@ -758,7 +758,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* rrtype */
 	len_varint = varint_decode32_bounded(p, end, &e->rrtype);
-	if (len_varint == 0)
+	if (len_varint == 0 || e->rrtype > USHRT_MAX)
 		return (dnstable_res_failure);
 	p += len_varint;
 
-- 
2.43.0


From b4d53ad97c379978ba4788cf81570a4b6395b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 06/50] fix: reject sliced rdata longer than 65535 bytes

The 16-bit length of the reassembled rdata was silently truncated.
---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 5f6605c..47fba41 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -782,6 +782,8 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	} else {
 		slice = p;
 		len_slice = end - p;
+		if (len_slice + len_data > USHRT_MAX)
+			return (dnstable_res_failure);
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_slice + len_data);
 		rdata->len = len_slice + len_data;
 		memcpy(rdata->data, slice, len_slice);
-- 
2.43.0


From 7149800f2a1816286f47dd19d08859c126edc4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 07/50] fix: rrtype_union_check must not read the byte past a
 window block

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 47fba41..8ee4b72 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1221,7 +1221,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 0f84e6f6eb07d5b52e44e5245a0cd88615ebfee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 08/50] fix: an rrtype window block longer than 32 bytes is
 corrupt

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 8ee4b72..68c55ec 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1149,7 +1149,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
 
-		if (block_len < 1 || rrtype_map_size < block_len)
+		if (block_len < 1 || block_len > 32 || rrtype_map_size < block_len)
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
-- 
2.43.0


From fc36364e7145fb057484b962e25220a5035cc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 09/50] fix: size the merged rrtype bitmap for every window
 block

---
 dnstable/dnstable-private.h | 2 +-
 dnstable/merge.c            | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index ca5c50c..d251b0e 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -148,7 +148,7 @@ dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
  * possible RRtypes.  As an example, "boxun.com.cn." in 2017 had 111
  * unique RRtypes defined, many not standardized.
  */
-#define MAX_RRTYPES_MAPPABLE 65535
+#define MAX_RRTYPES_MAPPABLE 65536
 
 typedef struct {
 	uint16_t rrtypes[MAX_RRTYPES_MAPPABLE];
diff --git a/dnstable/merge.c b/dnstable/merge.c
index c1a86b5..47c7e05 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,8 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	/* 256 window blocks, each with a two byte header and up to 32 bytes of bitmap */
+	uint8_t result_data[256 * (2 + 32)];
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +132,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +161,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 3070b1fd9eb9a87f1f0238345ee38030dd558ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 10/50] fix: release the key copies held by a remove iterator

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From e99cc8bef6ef5cc4e9516ee2eb5fc04132c65414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 11/50] fix: dnstable_query_init must accept
 DNSTABLE_QUERY_TYPE_SOURCE_INFO

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index d95aa71..a4344b6 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -165,6 +165,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
-- 
2.43.0


From a2ed9f3d01c19e529959356475ae12bc9c1f0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 12/50] fix: a setfile reader must have a source to iterate
 over

---
 dnstable/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..1e02d02 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -52,6 +52,7 @@ dnstable_reader_init_setfile(const char *setfile)
 	struct mtbl_fileset_options *fopt = mtbl_fileset_options_init();
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
+	r->source = mtbl_fileset_source(r->fs);
 	mtbl_fileset_options_destroy(&fopt);
 
 	return (r);
-- 
2.43.0


From bf558448d283f893751004317d956d4fb7175253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 13/50] fix: filter_rrtype_ip must not read the label length
 past the end of the key

---
 dnstable/query.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index a4344b6..cfd40a5 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1214,7 +1214,13 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			if (ubuf_size(seek_key) >= len_key) {
+				/* All of the key data is copied. Move to next key. */
+				return (mtbl_res_success);
+			}
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From 6203eee2dc1625cd9729fadd5d771f96a2cea211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 14/50] fix: forget the raw rdata length when the raw rdata is
 cleared

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index cfd40a5..3c57650 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -240,6 +240,7 @@ static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
 	my_free(q->rdata);
+	q->len_rdata = 0;
 	if (data == NULL)
 		return (dnstable_res_success);
 	return hex_decode(data, &q->rdata, &q->len_rdata);
-- 
2.43.0


From d33d0b72962ce3d9b87d30029d75ce9728bc4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 15/50] fix: running a query must not use up the offset of the
 query

---
 dnstable/query.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3c57650..992d2b7 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -90,6 +90,7 @@ struct query_iter {
 	struct remove_mtbl	*remove_strict;	/* for aggregated + strict time filtering */
 	struct mtbl_fileset	*fs_no_merge;	/* fileset for un-aggregated queries */
 
+	uint64_t		offset;		/* entries still to be skipped */
 	struct timespec		deadline;	/* derived from query->timeout */
 	jmp_buf			to_env;
 	/* Basically the same, but each applies to either source or source_index */
@@ -948,12 +949,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1807,7 +1807,8 @@ dnstable_query_iter_common(struct query_iter *it)
 	}
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
-	if (q->offset > 0) {
+	it->offset = q->offset;
+	if (it->offset > 0) {
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From f243ed3b9e8981ccb1006fb7550c997a1b46735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 16/50] fix: skip index entries which hold no name

---
 dnstable/query.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 992d2b7..fe387ec 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1362,6 +1362,10 @@ query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t t
 				return (dnstable_res_failure);
 			}
 
+			/* an index entry without a name refers to nothing */
+			if (len_key < 2)
+				continue;
+
 			/* use the new rrtype indexes */
 			if (it->query->do_rrtype && !rrtype_test(type_byte, wanted_rrtype, val, len_val))
 				continue;
-- 
2.43.0


From 389cc78b2afbf0c25566abf86c9d4aa0140e8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 17/50] fix: a failed IP range must not leave half of the range
 in the query

---
 dnstable/query.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index fe387ec..e5b72cf 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -273,6 +273,8 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	}
 	res = dnstable_res_success;
 out:
+	if (res != dnstable_res_success)
+		q->len_ip1 = q->len_ip2 = 0;
 	my_free(s);
 	return (res);
 }
-- 
2.43.0


From 232b6d1040d7d2607fff8298761abbdf010d1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 18/50] fix: the rrtype of an IP address query is that of its
 address

---
 dnstable/query.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e5b72cf..b7cb695 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -412,22 +412,28 @@ dnstable_query_set_data(struct dnstable_query *q, const char *data)
 	}
 }
 
+static dnstable_res
+query_clear_rrtype(struct dnstable_query *q)
+{
+	/* The address of an IP address query implies its rrtype. */
+	if (q->q_type != DNSTABLE_QUERY_TYPE_RDATA_IP)
+		q->do_rrtype = false;
+	return (dnstable_res_success);
+}
+
 dnstable_res
 dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 {
 	uint16_t rrtype;
 
-	if (s_rrtype == NULL) {
-		q->do_rrtype = false;
-		return (dnstable_res_success);
-	}
+	if (s_rrtype == NULL)
+		return query_clear_rrtype(q);
 
 	if (strcasecmp(s_rrtype, "ANY") == 0 ||
 	    strcasecmp(s_rrtype, "TYPE255") == 0 || /* ANY == TYPE255 */
 	    strcasecmp(s_rrtype, "ANY-DNSSEC") == 0)
 	{
-		q->do_rrtype = false;
-		return (dnstable_res_success);
+		return query_clear_rrtype(q);
 	}
 
 	rrtype = wdns_str_to_rrtype(s_rrtype);
@@ -435,6 +441,10 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 		query_set_err(q, "unknown rrtype mnemonic");
 		return (dnstable_res_failure);
 	}
+	if (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP && q->len_ip1 > 0 && rrtype != q->rrtype) {
+		query_set_err(q, "rrtype does not match the IP address");
+		return (dnstable_res_failure);
+	}
 	q->rrtype = rrtype;
 	q->do_rrtype = true;
 	return (dnstable_res_success);
-- 
2.43.0


From f5e5fe9e19b41cba6e5f2ed49f4cdf689d2d1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 19/50] fix: never jump to a stale timeout environment

---
 dnstable/query.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index b7cb695..a56b580 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -979,6 +979,13 @@ query_iter_set_deadline(struct query_iter *it)
 {
 	struct dnstable_query *q = it->query;
 
+	if (!q->do_timeout && !q->do_deadline) {
+		/* both were cleared since the iterator was created */
+		it->deadline.tv_sec = INT32_MAX;
+		it->deadline.tv_nsec = 0;
+		return;
+	}
+
 	if (!q->do_timeout) {
 		it->deadline = q->deadline;
 		return;
@@ -995,9 +1002,8 @@ static dnstable_res
 query_iter_next(void *clos, struct dnstable_entry **ent)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
@@ -1351,11 +1357,10 @@ static dnstable_res
 query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t type_byte)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 	const uint8_t *key, *val;
 	size_t len_key, len_val;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
-- 
2.43.0


From b99d73f36faa25c112cd550b8c0751a5251fda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 20/50] fix: compute IP prefix masks without undefined shifts

---
 libmy/ip_arith.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..0c314fb 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(prefix_len == 0 ? 0 : UINT32_MAX << (32 - prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(prefix_len == 0 ? UINT32_MAX : ~(UINT32_MAX << (32 - prefix_len)));
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(~(UINT64_MAX >> prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(~(UINT64_MAX >> prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(UINT64_MAX >> prefix_len);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(UINT64_MAX >> prefix_len);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 8752d4e79fcddfe18b7daeccae1317b706135eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 21/50] fix: b32_decode.c uses bool and size_t

---
 libmy/b32_decode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 5303811..77a4809 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -49,6 +49,8 @@
  *     http://tools.ietf.org/html/rfc4648
  */
 
+#include <stdbool.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <string.h>
 
-- 
2.43.0


From f2d5fc8521668f5237fab42574424f45a4488ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 22/50] fix: two bytes are four base32 digits

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..f07c52d 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 43cff613b7351031086c6baaa8d7a29c0dcd5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 23/50] fix: encoding no bytes gives no base32 digits

---
 libmy/b32_encode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..211ef52 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -97,6 +97,9 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 		case 1:
 			k = 2;
 			break;
+		case 0:
+			k = 0;
+			break;
 		default:
 			k = 8;
 		}
-- 
2.43.0


From 6dbc3437e8f6ac576ec633ef348bd20bac86ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 24/50] fix: base64_decode_value must not read past its table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 381b20f40344166b0801eb008345f070147303b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 25/50] fix: heap_get of an empty heap must return NULL

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 24d71e53dbee1ef24fe2d12900b76b0aa55566d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 26/50] fix: only a whole label * or + is a right wildcard

---
 dnstable/query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index a56b580..5e31f6c 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1515,10 +1515,16 @@ static inline bool
 is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
+	size_t pos = 0;
 
 	if (name->len >= 3 &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
+		/* these bytes may be the tail of a longer label, like "a\001*" */
+		while (pos < name->len - 3)
+			pos += name->data[pos] + 1;
+		if (pos != name->len - 3)
+			return (false);
 		q->dq_wildplus = name->data[name->len - 2] == '+';
 		return (true);
 	}
-- 
2.43.0


From e3a53ea62bbb9a1b1a3ea9f8c934e75183923ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 27/50] fix: a negative prefix length is not a prefix length

---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 5e31f6c..ca510c5 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -302,7 +302,8 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	plen = strtol(prefix_length, &endptr, 10);
 	if (errno != 0 || *endptr != '\0') goto out;
 
-	if ((len_ip == 4 && plen > 32) ||
+	if (plen < 0 ||
+	    (len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
 	{
 		res = dnstable_res_failure;
-- 
2.43.0


From 9627937d6bc59874951acaeb8271eca4caf3b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 28/50] fix: count the files of an unaggregated query once

---
 dnstable/query.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index ca510c5..911d8db 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -2089,6 +2089,8 @@ dnstable_query_iter_fileset(struct dnstable_query *q, struct mtbl_fileset *fs)
 	if (!q->aggregated) {
 		mtbl_fileset_options_set_merge_func(fopt, NULL, NULL);
 		mtbl_fileset_options_set_dupsort_func(fopt, dnstable_dupsort_func, NULL);
+		/* the same files pass the filter again: count them once */
+		it->stats.fileset_files = 0;
 		it->fs_no_merge = mtbl_fileset_dup(fs, fopt);
 		/* it->source_index remains merged to prevent duplicate index lookups. */
 		it->source = mtbl_fileset_source(it->fs_no_merge);
-- 
2.43.0


From 2e2fa6b39c82672da94353b18412d90a5e3927c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 29/50] fix: filter_rrtype_ip must not compare past the end of
 a short key

---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 911d8db..e6a98c7 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1162,7 +1162,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+					key, len_key < ubuf_size(seek_key) ?
+					len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
-- 
2.43.0


From 03bfef3dec79c3727e0f2d607d8d79d6f013d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 30/50] fix: clear the entry type of a version query when its
 data is cleared

---
 dnstable/query.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e6a98c7..3563785 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -375,8 +375,10 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 	dnstable_res res;
 	dnstable_entry_type type;
 
-	if (data == NULL)
+	if (data == NULL) {
+		q->has_v_type = false;
 		return (dnstable_res_success);
+	}
 
 	res = dnstable_entry_type_from_string(&type, data);
 	if (res != dnstable_res_success)
-- 
2.43.0


From 26ecd0aeaecc74f14582f3cc322a03678424d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 31/50] fix: do not overrun the digit buffer when the locale's
 thousands separator is multibyte

---
 dnstable/entry.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 68c55ec..1249bf6 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -63,9 +63,8 @@ dnstable_entry_to_json_fmt(const struct dnstable_entry *e,
 static void
 fmt_uint64(ubuf *u, uint64_t v)
 {
-	char s[sizeof("18,446,744,073,709,551,615")];
-	int ret = snprintf(s, sizeof(s), "%'" PRIu64, v);
-	ubuf_append(u, (const uint8_t*) s, ret);
+	/* The locale decides how long the grouped digits are. */
+	ubuf_add_fmt(u, "%'" PRIu64, v);
 }
 
 static void
-- 
2.43.0


From dd3f56f26c37d9ec5ae245f10b90ddffd69197eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 32/50] fix: do not abort on a time that RFC 3339 cannot
 express

---
 dnstable/entry.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 1249bf6..267c96e 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -80,9 +80,17 @@ fmt_time(ubuf *u, uint64_t v)
 		ubuf_append(u, (const uint8_t*) s, len);
 }
 
-static inline void
-fmt_rfc3339(const struct tm *src, char *dst)
+/* Returns false if the time has no RFC 3339 representation (years 0 to 9999). */
+static inline bool
+fmt_rfc3339(uint64_t v, char *dst)
 {
+	struct tm gm, *src;
+	time_t tm = v;
+
+	src = gmtime_r(&tm, &gm);
+	if (src == NULL || src->tm_year < -1900 || src->tm_year > 9999 - 1900)
+		return false;
+
 	my_uint64_to_str(1900 + src->tm_year, dst, 5, NULL);
 	dst[4] = '-';
 	my_uint64_to_str(1 + src->tm_mon, dst + 5, 3, NULL);
@@ -95,43 +103,36 @@ fmt_rfc3339(const struct tm *src, char *dst)
 	dst[16] = ':';
 	my_uint64_to_str(src->tm_sec, dst + 17, 3, NULL);
 	dst[19] = 'Z';
+	return true;
 }
 
 static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
-	struct tm gm, *r;
-	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
-
-	fmt_rfc3339(r, ts);
-
 	/*
 	 * fmt_rfc3339 will completely fill the ts array, so ubuf_append_cstr_lit can compute the string
 	 * length using sizeof
 	 */
-	ubuf_append_cstr_lit(u, ts);
+	if (fmt_rfc3339(v, ts))
+		ubuf_append_cstr_lit(u, ts);
+	else
+		append_json_value_int(u, v);
 }
 
 static void
 fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 {
-	struct tm gm, *r;
-	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
-
-	fmt_rfc3339(r, ts);
-
 	/*
 	 * fmt_rfc3339 will completely fill the ts array, so sizeof can be used to compute the string length
 	 */
-	JSON_STR_APPEND_LEN(u, ts, sizeof(ts) - 1);
+	if (fmt_rfc3339(v, ts))
+		JSON_STR_APPEND_LEN(u, ts, sizeof(ts) - 1);
+	else
+		append_json_value_int(u, v);
 }
 
 /*
-- 
2.43.0


From 6cf456eae3328176f6f9310921326c79f64a459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 33/50] fix: reject times before the epoch in dnstable_lookup

---
 src/dnstable_lookup.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..92d8c3d 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -211,7 +211,10 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		time_t t = timegm(&tt);
+
+		/* Times before the epoch cannot be represented. */
+		return (t < 0) ? 0 : (uint64_t)t;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
-- 
2.43.0


From 99d00fc65b6a4f4470298e5dc37627df3c336a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 34/50] fix: refuse relative times in dnstable_lookup which
 overflow

---
 src/dnstable_lookup.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index 92d8c3d..1cdb513 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -232,22 +232,24 @@ parse_time(const char *s)
 
 	/* Parse 10w3d4h */
 	while(*s) {
+		long long unit = 1;
+
 		ll = strtoll(s, &endp, 10);
 		if (ll <= 0)
 			return 0;
 		switch(*endp) {
 		case 'W':
 		case 'w':
-			ll *= 7;
+			unit *= 7;
 		case 'D':
 		case 'd':
-			ll *= 24;
+			unit *= 24;
 		case 'H':
 		case 'h':
-			ll *= 60;
+			unit *= 60;
 		case 'M':
 		case 'm':
-			ll *= 60;
+			unit *= 60;
 		case 'S':
 		case 's':
 		case '\0':
@@ -255,12 +257,15 @@ parse_time(const char *s)
 		default:
 			return 0;
 		}
-		total += ll;
+		/* More time than has passed since the epoch; this also avoids overflow. */
+		if (ll > now.tv_sec / unit)
+			return 0;
+		total += ll * unit;
+		if (total > now.tv_sec)
+			return 0;
 		s = endp;
 		if (*s) s++;
 	}
-	if (total > now.tv_sec)
-		return 0;
 	return (uint64_t)(now.tv_sec - total);
 }
 
-- 
2.43.0


From 42eb8f565008cd4f4debe5eac8206f487b674044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 35/50] fix: keep file names with blanks intact in
 dnstable_merge

---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From 36236d29a9994163394165ccb31b1e67ee29dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 36/50] fix: load a file listed twice in a set file only once

---
 libmy/my_fileset.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..f262ae4 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,8 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		/* A file listed more than once is one member of the set. */
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From e9afd0cab50128ab005b9f23d00e1175d8eaf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 37/50] fix: retry a set file which could not be opened

---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index f262ae4..ad198d1 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* Nothing was read: the update is still to be seen. */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From e13e5cc333ae5f4cfd8fc071016a4a11cdb01b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 38/50] fix: string_replace: an empty pattern no longer loops
 forever

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From f67acc2f5e2795e281958b10b2372a3e55d4730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 39/50] fix: zonefile: a file without records no longer makes
 opening it loop forever

---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..c6c8f76 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From e1df5acec868e49c56fa114764dd98e413c33e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 40/50] fix: zonefile: free the handle of a file which cannot
 be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index c6c8f76..0e3e97f 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -87,8 +87,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		free(z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From d56c3962fa2628e291debaa800bc703c269f3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 41/50] fix: zonefile: the serial number is still there after
 the SOA record was read

---
 libmy/zonefile.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 0e3e97f..eb9a57e 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -27,6 +28,7 @@ static ldns_status
 read_soa(struct zonefile *z)
 {
 	ldns_rr *rr;
+	ldns_rdf *rdf;
 	ldns_status status;
 
 	for (;;) {
@@ -59,7 +61,11 @@ out:
 		return (LDNS_STATUS_ERR);
 	}
 
+	rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+
 	z->count = 1;
+	z->serial = ldns_rdf2native_int32(rdf);
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
@@ -137,9 +143,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From eb3b40c61f527914e50378d4f6512be0e7a5d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 42/50] fix: zonefile: an $ORIGIN before the SOA record stays
 in force after it

---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eb9a57e..940253f 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -67,7 +67,8 @@ out:
 	z->count = 1;
 	z->serial = ldns_rdf2native_int32(rdf);
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From be633e1f03bec99a24ed37f4b8f862472326f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 43/50] fix: zonefile: nothing is read past the SOA record
 which ends a zone

---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 940253f..62a7121 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -178,6 +178,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From 528e6d412dbe0f5593c826fa5afd51a5fb2c1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 44/50] fix: zonefile: keep the shell from interpreting the
 name of a compressed file

---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 62a7121..a2d5bb1 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -85,8 +85,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 9cffde27447fb5c7f9607c374b104b40791b801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 45/50] fix: my_uint64_to_str: the text of a one-byte buffer
 starts within it

---
 libmy/my_format.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..db8ffec 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -62,17 +62,15 @@ my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 	size_t ndigits = 0;
 	char *ptr = &dst[dst_size - 1];
 
-	*ptr-- = '\0';
+	*ptr = '\0';
 
-	while (ptr >= dst) {
-		*ptr = '0' + num % 10;
+	while (ptr > dst) {
+		*--ptr = '0' + num % 10;
 		ndigits++;
 		num /= 10;
 
-		if (num == 0 || ptr == dst)
+		if (num == 0)
 			break;
-
-		ptr--;
 	}
 
 	if (start != NULL)
-- 
2.43.0


From d152459ad3a90173886eedf9cc8a1c6e23135122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 46/50] fix: dnstable_lookup: refuse numbers out of range
 instead of wrapping them

-O, -t and -i were read with atoi(), so that "-O 4294967297" skipped one
entry and "-t 4294967297" gave up after one second.
---
 src/dnstable_lookup.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index 1cdb513..a97029f 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -300,6 +300,19 @@ usage(void)
 	exit(EXIT_FAILURE);
 }
 
+/* Returns 0 unless 's' is a number from 1 to 'max'. */
+static int64_t
+parse_positive(const char *s, int64_t max)
+{
+	long long ll;
+
+	errno = 0;
+	ll = strtoll(s, NULL, 10);
+	if (errno != 0 || ll <= 0 || ll > max)
+		return 0;
+	return ll;
+}
+
 int
 main(int argc, char **argv)
 {
@@ -362,8 +375,8 @@ main(int argc, char **argv)
 			case_sensitive = true;
 			break;
 		case 'i':
-			interval = atoi(optarg);
-			if (interval <= 0)
+			interval = parse_positive(optarg, INT32_MAX);
+			if (interval == 0)
 				usage();
 			break;
 		case 'j':
@@ -382,16 +395,16 @@ main(int argc, char **argv)
 			g_stats++;
 			break;
 		case 't':
-			timeout = atoi(optarg);
-			if (timeout <= 0)
+			timeout = parse_positive(optarg, INT32_MAX);
+			if (timeout == 0)
 				usage();
 			break;
 		case 'u':
 			g_aggregate = false;
 			break;
 		case 'O':
-			g_offset = atoi(optarg);
-			if (g_offset <= 0)
+			g_offset = parse_positive(optarg, INT64_MAX);
+			if (g_offset == 0)
 				usage();
 			break;
 		case -1:
-- 
2.43.0


From d71e8141ba4f1cbe8e70c6d8cd6a766fda80b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 47/50] fix: argv_long_was_used() compares names, not pointers

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..df22b0c 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3408,7 +3408,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 3fb3c59c77133b2c2718c5a9bd657ca1b45ff9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 48/50] fix: argv: a number after --argv-file followed a null
 pointer

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index df22b0c..ae26b6b 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2706,7 +2706,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && queue_list[*queue_tail_p] != NULL) {
 	    
 	    match_p = queue_list[*queue_tail_p];
 	    /*
-- 
2.43.0


From b359f8e36f8219c1090e53d85f299b1ffd95b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 49/50] fix: argv: options waiting for values overflowed their
 queue

The queue had one place per word of the command line, but a word can
hold several options (-sss), and an argument file many words.
---
 libmy/argv.c | 112 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 39 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index ae26b6b..daa58b1 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2256,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2269,56 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void queue_add
+ *
+ * DESCRIPTION:
+ *
+ * Add an argument which is looking for a value to our option queue.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Our option queue, which is grown if necessary.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p - Argument to add, or NULL for the file argument.
+ *
+ * okay_bp <- Pointer to an integer which is set to 0 if we ran out of
+ * memory.
+ */
+static	void	queue_add(argv_t ***queue_list_p, int *queue_head_p,
+			  argv_t *match_p, int *okay_bp)
+{
+  argv_t	**list_p;
+  
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    list_p = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				(*queue_head_p + ARRAY_INCR));
+    if (list_p == NULL) {
+      *okay_bp = ARGV_FALSE;
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      if (argv_interactive) {
+	(void)exit(argv_error_code);
+      }
+      return;
+    }
+    *queue_list_p = list_p;
+  }
+  
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2341,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2350,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2406,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    queue_add(queue_list_p, queue_head_p, match_p, okay_bp);
   }
 }
 
@@ -2421,7 +2470,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2482,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2574,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2585,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  queue_add(queue_list_p, queue_head_p, NULL, okay_bp);
 	}
 	continue;
       }
@@ -2707,9 +2755,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p
-	      && queue_list[*queue_tail_p] != NULL) {
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2742,7 +2790,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2752,12 +2800,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3125,7 +3173,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3187,22 +3235,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3210,12 +3246,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,10 +3269,8 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
     okay_b = ARGV_FALSE;
   }
   
-  /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  /* free the queue if we used it */
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 195bed7935b05c0ff754d6a507ccf3e0b39f4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:02 +0000
Subject: [PATCH 50/50] fix: argv: checking the last option read past the end
 of the array

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index daa58b1..c69e8a0 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0

