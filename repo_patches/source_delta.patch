From 7ff1fcc4e04e2059ffb9358222ef0443ab33c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 01/18] fix: only reuse the last chunk for an entry of the same
 length

An index entry repeating the previous chunk ID with a different length was
written from the chunk buffer without comparing lengths, storing stale data
(or reading past the buffer) and reporting success. Also treat a chunk that
was not found in any store as an error for zero-length entries.
---
 main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 0e13df5..529d7f7 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,14 +55,15 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || last_len != len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
-		if (ret < 0 || len != (size_t)ret) {
+		if (ret <= 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
 			return -1;
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From 555a0d29b9cf683505c4686abf54fde37bd4425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 02/18] fix: fail on index entries that cannot be represented

Entries longer than UINT32_MAX (including non-monotonic offsets, whose
length wraps around) were skipped silently, so that extraction reported
success with parts of the target missing. Empty entries ran into an assertion
when inserted into a chunk index.
---
 caibx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..d37c304 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,13 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		if (offset <= last_offset) {
+			chunk_format_id(chunk_id, &buf[8]);
+			u_log(ERR, "end offset %"PRIu64" of chunk %s is not beyond its start %"PRIu64,
+			      offset, chunk_id, last_offset);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,12 +228,12 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine. Only give up
+			 * on chunks that we cannot represent at all.
 			 */
 			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
+				u_log(ERR, "chunk %s cannot be represented", chunk_id);
+				return -1;
 			}
 		}
 
-- 
2.43.0


From 42e9f190d2118950b59c7f08ffed3facdc762094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 03/18] fix: hash the whole input when falling back from kcapi

data and len have already been advanced past the parts handed to the kernel
when a later send or the recv fails.
---
 sha.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sha.c b/sha.c
index 3e272d6..b789b29 100644
--- a/sha.c
+++ b/sha.c
@@ -81,6 +81,9 @@ void sha_kcapi_deinit(void)
 
 int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 {
+	const uint8_t *all_data = data;
+	size_t all_len = len;
+
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
@@ -121,5 +124,5 @@ disable:
 	sha_kcapi_deinit();
 
 	// fall back to openssl
-	return (SHA256(data, len, out) != NULL) ? 0 : -1;
+	return (SHA256(all_data, all_len, out) != NULL) ? 0 : -1;
 }
-- 
2.43.0


From 536c09b6c8d0e958593f0b8665d1b6e05426d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 04/18] fix: allow an expected index size of zero

The estimate for local stores smaller than the average chunk size and for
empty indices is zero, which triggered the assertion and aborted.
---
 index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..485fb49 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,9 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	if (!expected_size)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From e25762fbb9a08f4dfc09da00c9336c8d521e16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 05/18] fix: don't leave dangling entries behind in a cleaned
 up index

A failed rescan of a local store left the freed entries in place, so freeing
the store afterwards freed them a second time.
---
 index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index.c b/index.c
index 485fb49..492ba23 100644
--- a/index.c
+++ b/index.c
@@ -26,6 +26,9 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+	idx->entries = NULL;
+	idx->n_entries = 0;
+	idx->space_avail = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From bac8f366ed3891dc940aeae7a8b0ce6d2c8513d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 06/18] fix: initialize hit counter of stores appended to a
 grown chain

---
 store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store.c b/store.c
index ecdbbf3..11cb866 100644
--- a/store.c
+++ b/store.c
@@ -127,6 +127,7 @@ int store_chain_append(struct store_chain *sc, struct store *s)
 	struct substore *substore = &sc->stores[sc->n_stores];
 	substore->s = s;
 	substore->active = true;
+	substore->hits = 0;
 
 	sc->n_stores++;
 
-- 
2.43.0


From d81431b640badb3d30119c3a60308726e1a7a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 07/18] fix: rescan local stores if a sideloaded entry cannot
 be read

Entries of a sideloaded index pointing beyond the end of the store or
exceeding the maximum chunk length made the store fail for good instead of
discarding the incorrect index.
---
 store-local.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/store-local.c b/store-local.c
index b683064..c88eba0 100644
--- a/store-local.c
+++ b/store-local.c
@@ -141,11 +141,19 @@ restart:
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
@@ -171,6 +179,7 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From d9583f9e9fa25ec23c18111541dbb50e87e8ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 08/18] fix: handle negative return values of EVP_Cipher

For provided ciphers EVP_Cipher returns the number of bytes processed or -1 on
error, so failures went unnoticed while empty input was considered an error.
---
 encrypt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..e5b17d2 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,7 +136,11 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
+	if (!len)
+		return 0;
+
+	// returns -1 or 0 on error, depending on the cipher implementation
+	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) <= 0)
 		return -1;
 
 	return 0;
-- 
2.43.0


From 6315a3a7c9c8f520b88f5b92a5d1c988f2e42b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 09/18] fix: reject average chunk sizes without a valid
 discriminator

An average size of 1 yields a discriminator of zero and thus a division by
zero while chunking, sizes of about 9.3 MB and more a negative one (whose
conversion to size_t is undefined).
---
 chunker.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/chunker.c b/chunker.c
index b499f49..beaa018 100644
--- a/chunker.c
+++ b/chunker.c
@@ -107,7 +107,8 @@ void chunker_reset(struct chunker *c)
 	SHA256_Init(&c->sha_ctx);
 }
 
-#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / (-1.42888852e-7 * avg + 1.33237515)))
+#define CA_CHUNKER_DISCRIMINATOR_DIVISOR(avg) (-1.42888852e-7 * avg + 1.33237515)
+#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / CA_CHUNKER_DISCRIMINATOR_DIVISOR(avg)))
 int chunker_init(struct chunker *c, struct chunker_params *params)
 {
 	u_assert(c);
@@ -116,6 +117,14 @@ int chunker_init(struct chunker *c, struct chunker_params *params)
 
 	// make sure we match casync's results here
 	u_build_assert(CA_CHUNKER_DISCRIMINATOR_FROM_AVG(64 * 1024) == 0xc17f);
+
+	// the discriminator has to be a positive number
+	if (c->params.avg_size < 2 ||
+	    CA_CHUNKER_DISCRIMINATOR_DIVISOR(c->params.avg_size) <= 0) {
+		u_log(ERR, "unsupported average chunk size %"PRIu32, c->params.avg_size);
+		return -1;
+	}
+
 	c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);
 
 	chunker_reset(c);
-- 
2.43.0


From fd832bc1e1e14014177c372405d68a7c9835d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 10/18] fix: don't leave incomplete output files behind in
 csn-tool crypt

Later runs skip files that already exist, so the truncated file was never
replaced. Also don't let a file called "-" suppress writing to stdout.
---
 csn-tool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..a03236c 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -72,7 +72,7 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	if (!streq(output_path, "-") && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
@@ -107,6 +107,11 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 
 	if (writeall(fd, buf, chunk_size) < 0) {
 		u_log(ERR, "failed to write to output file");
+
+		// don't mistake the incomplete file for a finished one later on
+		if (fd != STDOUT_FILENO)
+			unlink(output_path);
+
 		goto out_fd;
 	}
 
-- 
2.43.0


From f1820bf3629a397cc1ac6cc3014ae5994895634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 11/18] fix: restart decoding when retrying an HTTP request

When a transfer timed out after some data had been received, the retry
appended its response to the output, decoder and keystream state of the
failed attempt, so that the chunk could not be decoded.
---
 store-http.c | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..088402f 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,41 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+static int http_request_start(struct http_request_ctx *ctx, const uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, const uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		// start from scratch, a previous attempt may have failed after
+		// delivering some data already
+		if (http_request_start(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,36 +302,22 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
-		.outbuf_size = out_max,
-		.outbuf_written = 0,
-		.state = HTTP_REQUEST_STARTED
+		.outbuf_size = out_max
 	};
 	curl_checked_setopt(hs->curl, CURLOPT_WRITEDATA, &ctx, return -1);
 
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From 9d0a8252c45458e5a42d0e15122bdee217a31f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 12/18] fix: encrypt all of inputs that do not fit into an int

---
 encrypt.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index e5b17d2..10130fe 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,12 +136,18 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!len)
-		return 0;
+	while (len) {
+		// EVP_Cipher's length and return value are ints
+		size_t n = MIN(len, (size_t)1 << 30);
 
-	// returns -1 or 0 on error, depending on the cipher implementation
-	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) <= 0)
-		return -1;
+		// returns -1 or 0 on error, depending on the cipher implementation
+		if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, n) <= 0)
+			return -1;
+
+		out += n;
+		in += n;
+		len -= n;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 6753f784945c40dcd54dfaed276af9a5083c32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 13/18] fix: only strip line endings at the end in chomp

---
 utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils.c b/utils.c
index 70cc46a..a4d2f48 100644
--- a/utils.c
+++ b/utils.c
@@ -279,6 +279,7 @@ void chomp(char *s)
 			while (*p == '\r' || *p == '\n')
 				p++;
 		} else {
+			q = NULL;
 			p++;
 		}
 	}
-- 
2.43.0


From 352a07d15c2ce15768057b2592794175d2a33e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 14/18] fix: don't start synchronizing after printing casync's
 help

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 529d7f7..a4ba13e 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From a931e0edb8f473ff80168e1026f59400fd185d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 15/18] fix: report unknown csn-tool commands as failure

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index a03236c..4060031 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -208,5 +208,5 @@ int main(int argc, char **argv)
 		if (streq(cmds[i].name, argv[1]))
 			return cmds[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
-- 
2.43.0


From fe681a43537d955332553a5ef542e2f336ec6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 16/18] fix: report failure if csn-tool cannot read its list of
 paths

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index 4060031..4e4bc06 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -156,6 +156,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log(ERR, "reading input paths failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From e16eec08135bae1871ac215069b237cb49db26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 17/18] fix: don't derive chunk ids from names that are not
 chunk names

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 4e4bc06..b96c789 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -23,7 +23,7 @@ static int chunk_id_from_path(uint8_t id[CHUNK_ID_LEN], const char *path)
 		return -1;
 	}
 
-	if (!streq(&basename[name_len-6], ".cacnk") && !streq(&basename[name_len-10], ".cacnk.enc")) {
+	if (!streq(&basename[64], ".cacnk") && !streq(&basename[64], ".cacnk.enc")) {
 		u_log(ERR, "chunk basename '%s' does not end with '.cacnk' or '.cacnk.enc'", basename);
 		return -1;
 	}
-- 
2.43.0


From a1aa7d3b03591ffacefb7142920b8ec7e936685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 18/18] fix: don't truncate log messages

---
 log.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/log.c b/log.c
index 822b03d..ef95904 100644
--- a/log.c
+++ b/log.c
@@ -51,8 +51,6 @@ bool check_loglevel(enum u_loglevel level)
 
 void _u_log(enum u_loglevel level, const char *path, const char *func, int line, const char *format, ...)
 {
-	int _;
-
 	if (check_loglevel(level) == false)
 		return;
 
@@ -62,7 +60,8 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 	else
 		file = path;
 
-	char buf[128];
+	flockfile(stderr);
+
 	if (is_tty) {
 		static const int color_map[] = {
 			[U_LOG_ERR] = COLOR_RED,
@@ -71,10 +70,8 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = COLOR_BLUE
 		};
 
-		_ = snprintf(buf, sizeof(buf), COLOR_START "%s:%s:%d\t%s" COLOR_END "\n",
-		             color_map[level],
-		             file, func, line,
-		             format);
+		fprintf(stderr, COLOR_START "%s:%s:%d\t", color_map[level],
+		        file, func, line);
 	} else {
 		static const char *level_map[] = {
 			[U_LOG_ERR] = "ERR",
@@ -83,21 +80,18 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = "DBG"
 		};
 
-		_ = snprintf(buf, sizeof(buf), "%s %s:%s:%d %s\n",
-		             level_map[level],
-		             file, func, line,
-		             format);
-	}
-
-	if (_ < 0) {
-		fputs("error formatting log message", stderr);
-		return;
+		fprintf(stderr, "%s %s:%s:%d ", level_map[level],
+		        file, func, line);
 	}
 
 	va_list args;
 	va_start(args, format);
-	vfprintf(stderr, buf, args);
+	vfprintf(stderr, format, args);
 	va_end(args);
+
+	fputs(is_tty ? COLOR_END "\n" : "\n", stderr);
+
+	funlockfile(stderr);
 }
 
 void hexdump(void *addr, size_t len)
-- 
2.43.0

