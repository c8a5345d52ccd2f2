/* store-http.c against a transport, decompressor and cipher that do anything
 * their contracts permit.  encrypt.c by the contract C21/C22 decide. */
#include "vf.h"
#define VF_WANT_FMT
#define VF_WANT_HASH
#ifndef BL
#define BL 6		/* bytes of the response body */
#endif
#ifndef OUT
#define OUT 4		/* output buffer */
#endif
#define VF_HASH_MAX OUT
#define VF_OWN_SLEEP
#include "vf_env.c"
#include "utils.h"
#include "store-http.h"
#include "encrypt.h"

#ifndef ENC
#define ENC 0
#endif
/* LEAVE: bytes the decompressor leaves alone in its 1st, 2nd... call (then none)
 * CUTS: pieces delivered in the 1st, 2nd... attempt (then all) */
#ifndef LEAVE
#define LEAVE 0
#endif
#ifndef CUTS
#define CUTS 99
#endif
#ifndef TRANSIENT	/* attempts that may fail transiently */
#define TRANSIENT 0
#endif
#ifndef REQUESTS
#define REQUESTS 1
#endif
#ifndef BASE
#define BASE "http://h/s"
#endif

ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; return -1; }
#ifndef URL_CHECKED
/* the name of a chunk is decided by C09 */
void chunk_format_id(char *s, const uint8_t *id)
{
	(void)id;
	for (int i = 0; i < 64; i++) s[i] = 'x';
	s[64] = 0;
}
#endif

static const unsigned parts[] = { PARTS };
#define NPARTS (sizeof(parts) / sizeof(*parts))
static const unsigned leave[] = { LEAVE }, cuts[] = { CUTS };
static unsigned zcalls;
static uint8_t body[BL], ks[BL], cur_id[32], out[OUT + 2];
static size_t out_max;
static bool magic_ok;

/* ---- this request ---- */
static unsigned performs, transients, sleeps;
static bool must_fail;		/* something failed in the last attempt */
static CURLcode last_code;
static long status;
/* ---- this attempt ---- */
static unsigned delivered, zpos, produced, epos;
static size_t offered;		/* bytes of the body the decompressor has seen */
static bool zinit, zused, zerror, einit;
static bool code_failed;

/* ------------------------------------------------------------ encryption */
#define KEYSPEC "key:k"
int encrypt_parse_keyspec(uint8_t key[static 32], const char *spec)
{
	VF_CHECK(vf_streq(spec, KEYSPEC), "the key specification is passed on");
	for (int i = 0; i < 32; i++) key[i] = (uint8_t)(i * 3);
	return 0;
}
int encrypt_init(struct encrypt_ctx *ctx, const uint8_t key[static 32])
{
	(void)ctx;
	for (int i = 0; i < 32; i++) VF_CHECK(key[i] == (uint8_t)(i * 3), "the store's key is used");
	return 0;
}
int encrypt_restart(struct encrypt_ctx *ctx, const uint8_t nonce[static 24])
{
	(void)ctx;
	for (int i = 0; i < 24; i++) VF_CHECK(nonce[i] == cur_id[i], "decryption is keyed by the chunk id");
	epos = 0;
	einit = true;
	return 0;
}
int encrypt_do(struct encrypt_ctx *ctx, uint8_t *o, const uint8_t *in, size_t len)
{
	(void)ctx;
	VF_CHECK(ENC && einit, "decryption starts from the beginning in every attempt");
	for (unsigned i = 0; i < BL; i++)
		if (i < len) {
			VF_CHECK(epos < BL, "every byte is decrypted once");
			VF_CHECK(in[i] == (body[epos] ^ ks[epos]), "the body is decrypted in order, every byte once");
			o[i] = body[epos++];	/* a constant stays one */
		}
	return 0;
}
void encrypt_close(struct encrypt_ctx *ctx) { (void)ctx; }

/* ------------------------------------------------------------------ zstd */
static int zdummy;
ZSTD_DStream *vf_ZSTD_createDStream(void) { return (ZSTD_DStream *)&zdummy; }
size_t vf_ZSTD_freeDStream(ZSTD_DStream *z) { (void)z; return 0; }
size_t vf_ZSTD_initDStream(ZSTD_DStream *z) { (void)z; zinit = true; zpos = produced = 0; return 1; }
size_t vf_ZSTD_DCtx_reset(ZSTD_DCtx *z, ZSTD_ResetDirective d) { (void)z; (void)d; zinit = true; zpos = produced = 0; return 0; }
unsigned vf_ZSTD_isError(size_t r) { return r > (size_t)-120; }
const char *vf_ZSTD_getErrorName(size_t r) { (void)r; return "e"; }
size_t vf_ZSTD_decompressStream(ZSTD_DStream *z, ZSTD_outBuffer *o, ZSTD_inBuffer *in)
{
	VF_CHECK(z == (ZSTD_DStream *)&zdummy, "the store's decompressor is used");
	VF_CHECK(zinit, "decompression starts from the beginning in every attempt");
	VF_CHECK(o->dst == out && o->size == out_max, "the caller's buffer is filled");
	VF_CHECK(o->pos == produced, "output is appended");
	VF_CHECK(!zerror, "a failed decompressor is not used any more");
	VF_CHECK(status == 200, "only the body of a successful response is decoded");
	const uint8_t *src = in->src;
	size_t n = in->size - in->pos;
	VF_CHECK(in->pos <= in->size && zpos + n <= delivered, "no more than what has been received is decoded");
	VF_CHECK(zused || magic_ok, "only data with the right magic is decoded");
	VF_CHECK(zused || n >= 4, "the magic is seen as a whole");
	for (unsigned i = 0; i < BL; i++)
		if (i < n)
			VF_CHECK(src[in->pos + i] == body[zpos + i < BL ? zpos + i : 0], "the body is decoded in order, every byte once");
	zused = true;
	if (offered < zpos + n) offered = zpos + n;
#ifdef ZERROR
	if (zcalls == ZERROR) { zcalls++; zerror = true; return (size_t)-20; }
#endif
	/* identity codec behind a header of 4 bytes */
	size_t take = n;
	if (zcalls < sizeof(leave) / sizeof(*leave))
		take -= leave[zcalls] < n ? leave[zcalls] : n;
	zcalls++;
	for (unsigned i = 0; i < BL; i++)
		if (i < take) {
			if (zpos >= 4) {
				if (o->pos >= o->size)
					break;
#ifdef ARBITRARY_OUTPUT
				((uint8_t *)o->dst)[o->pos++] = vf_nd8();
#else
				((uint8_t *)o->dst)[o->pos++] = src[in->pos];
#endif
				produced++;
			}
			in->pos++;
			zpos++;
		}
	return zpos == BL ? 0 : 1;
}

/* ------------------------------------------------------------------ curl */
static int cdummy;
#define CU ((CURL *)&cdummy)
static size_t (*wcb)(char *, size_t, size_t, void *);
static void *wdata;
static char *errbuf;
static bool url_set, setopt_failed;
static int budget_setopt = 0;
static bool handles_open;
#ifdef URL_CHECKED
static void check_url(const char *u);
#else
static void check_url(const char *u) { (void)u; }
#endif

CURLcode vf_curl_global_init(long f) { (void)f; return CURLE_OK; }
CURL *vf_curl_easy_init(void) { handles_open = true; return CU; }
void vf_curl_easy_cleanup(CURL *c) { VF_CHECK(c == CU && handles_open, "the handle is freed once"); handles_open = false; }
const char *vf_curl_easy_strerror(CURLcode c) { (void)c; return "e"; }
CURLcode vf_curl_easy_setopt(CURL *c, CURLoption opt, ...)
{
	VF_CHECK(c == CU && handles_open, "the store's handle is used");
	if (budget_setopt > 0 && --budget_setopt == 0) { setopt_failed = true; return (CURLcode)vf_range(1, 99); }
	va_list ap;
	va_start(ap, opt);
	if (opt == CURLOPT_URL) { check_url(va_arg(ap, const char *)); url_set = true; }
	else if (opt == CURLOPT_WRITEFUNCTION) wcb = va_arg(ap, size_t (*)(char *, size_t, size_t, void *));
	else if (opt == CURLOPT_WRITEDATA) wdata = va_arg(ap, void *);
	else if (opt == CURLOPT_ERRORBUFFER) errbuf = va_arg(ap, char *);
	va_end(ap);
	return CURLE_OK;
}
CURLcode vf_curl_easy_getinfo(CURL *c, CURLINFO info, ...)
{
	(void)c;
	VF_CHECK(info == CURLINFO_RESPONSE_CODE, "harness: only the response code is modelled");
	va_list ap;
	va_start(ap, info);
	*va_arg(ap, long *) = status;
	va_end(ap);
	return CURLE_OK;
}
static bool is_transient(CURLcode c)
{
	return c == CURLE_COULDNT_CONNECT || c == CURLE_COULDNT_RESOLVE_HOST || c == CURLE_OPERATION_TIMEDOUT;
}
#if defined(BUDGET) || defined(URL_CHECKED)
#define PLAN
#endif
#ifdef PLAN
static CURLcode plan(void);
#endif
#ifndef STATUS
#define STATUS vf_nd64()
#endif
CURLcode vf_curl_easy_perform(CURL *c)
{
	VF_CHECK(c == CU && url_set && wcb && wdata, "the request is set up");
	performs++;
	VF_CHECK(performs == 1 || is_transient(last_code), "only transient failures are retried");
	VF_CHECK(sleeps == performs - 1, "there is a pause between attempts");
#ifdef PLAN
	return last_code = plan();
#else
	/* nothing of an earlier attempt may show */
	delivered = offered = 0;
	zused = false;
	zerror = false;
	status = (long)(STATUS);
	VF_ASSUME(status >= 100 && status <= 599);
	last_code = CURLE_OK;
	unsigned cut = performs - 1 < sizeof(cuts) / sizeof(*cuts) ? cuts[performs - 1] : NPARTS;
	for (unsigned p = 0; p < NPARTS && p < cut; p++) {
		uint8_t piece[BL];
		for (unsigned i = 0; i < parts[p]; i++)
			piece[i] = body[delivered + i] ^ (ENC ? ks[delivered + i] : 0);
		delivered += parts[p];
		size_t r = wcb((char *)piece, 1, parts[p], wdata);
		if (r != parts[p]) {
			last_code = CURLE_WRITE_ERROR;
			break;
		}
	}
	zinit = einit = false;
#ifdef ATTEMPTS	/* whether the 1st, 2nd... attempt fails transiently */
	static const unsigned char attempts[] = { ATTEMPTS };
	static unsigned attempt;
	if (last_code == CURLE_OK && attempt < sizeof(attempts) && attempts[attempt++]) {
#else
	if (last_code == CURLE_OK && transients < TRANSIENT && vf_ndb()) {
#endif
		transients++;
#ifdef ATTEMPTS
		unsigned w = attempt % 3;
#else
		unsigned w = (unsigned)vf_range(0, 2);
#endif
		last_code = w == 0 ? CURLE_COULDNT_CONNECT : w == 1 ? CURLE_COULDNT_RESOLVE_HOST : CURLE_OPERATION_TIMEDOUT;
	}
#ifdef FAILURES
	else if (last_code == CURLE_OK && performs == FAILURES) {
		last_code = (CURLcode)vf_range(1, 99);
		VF_ASSUME(!is_transient(last_code) && last_code != CURLE_WRITE_ERROR);
	}
#endif
	return last_code;
#endif
}
int vf_usleep(useconds_t us)
{
	uint64_t want = 200000;
	for (unsigned i = 0; i < 20; i++)
		if (i < sleeps && want < 10000000)
			want *= 2;
	if (want > 10000000)
		want = 10000000;
	VF_CHECK(is_transient(last_code), "there are pauses after transient failures only");
	VF_CHECK(us == want, "the pauses start at 0.2 s and double up to 10 s");
	sleeps++;
	return 0;
}
unsigned vf_sleep(unsigned s) { vf_usleep(s * 1000000); return 0; }
int vf_nanosleep(const struct timespec *t, struct timespec *r)
{
	(void)r;
	return vf_usleep((useconds_t)(t->tv_sec * 1000000 + t->tv_nsec / 1000));
}

#ifndef PLAN
void harness(void)
{
	static const uint8_t magic[4] = { 0x28, 0xb5, 0x2f, 0xfd };
	for (unsigned i = 0; i < BL; i++) { body[i] = vf_nd8(); ks[i] = vf_nd8(); }
#ifdef MAGIC
	for (unsigned i = 0; i < 4; i++) body[i] = magic[i];
#ifdef MAGIC_BAD
	body[MAGIC_BAD] ^= 1;
#endif
#endif
	magic_ok = true;
	for (unsigned i = 0; i < 4; i++) magic_ok &= body[i] == magic[i];
	struct store *s = store_http_new(ENC ? BASE "#encrypt=" KEYSPEC : BASE);
	VF_CHECK(s != NULL, "the store can be set up");
#ifdef SETOPT_FAIL
	budget_setopt = SETOPT_FAIL;
#endif
	for (unsigned q = 0; q < REQUESTS; q++) {
		uint8_t id[32];
		for (int i = 0; i < 32; i++) id[i] = cur_id[i] = vf_nd8();
		out_max = (size_t)vf_range(OUT_MIN, OUT);
		for (unsigned i = 0; i < sizeof(out); i++) out[i] = 0xa5;
		performs = transients = sleeps = 0;
		url_set = false;
		setopt_failed = false;
		ssize_t r = store_get_chunk(s, id, out, out_max);
		uint8_t h[32];
		vf_hash(out, produced, h);
		bool fine = !setopt_failed && last_code == CURLE_OK && status == 200 && zused && !zerror && vf_hash_eq(h, cur_id);
		for (unsigned i = 0; i < sizeof(out); i++)
			VF_CHECK(i < out_max || out[i] == 0xa5, "nothing is written beyond the buffer");
		if (performs > 0 && !setopt_failed && status == 200 && magic_ok && !zerror && delivered >= 4) {
			VF_CHECK(last_code != CURLE_WRITE_ERROR, "a body is not refused without reason");
			VF_CHECK(last_code != CURLE_OK || offered == delivered, "the whole body reaches the decompressor");
		}
		if (r > 0) {
			VF_CHECK(performs > 0 && last_code == CURLE_OK, "data only from requests that succeeded");
			VF_CHECK(status == 200, "data only from responses with status 200");
			VF_CHECK(fine, "data only if it decoded and hashes to the id");
			VF_CHECK((size_t)r == produced && (size_t)r <= out_max, "the length returned is the length decoded");
			VF_REACH("chunk returned");
		} else {
			VF_CHECK(!fine || produced == 0, "intact data is returned");
			if (r < 0) {
				VF_CHECK(setopt_failed || (last_code != CURLE_OK && last_code != CURLE_WRITE_ERROR), "the store fails only if the request cannot be made");
				VF_REACH("failure");
				return;
			}
			VF_REACH("not returned");
		}
		/* attempts: every transient failure is retried, up to ten attempts */
		if (!setopt_failed) {
			VF_CHECK(performs <= 10, "there are at most ten attempts");
			VF_CHECK(!is_transient(last_code) || performs == 10, "transient failures are retried up to ten attempts");
			VF_CHECK(performs == transients + (is_transient(last_code) ? 0 : 1), "other results end the attempts");
		}
		if (performs > 1 && r > 0) VF_REACH("chunk returned by a retry");
	}
	store_free(s);
	VF_CHECK(!handles_open, "the handle is freed");
	VF_REACH("done");
}
#endif

#ifdef BUDGET
/* C08: the error budget over sequences of requests with arbitrary outcomes */
enum { SERVER_ERROR, MISSING, GOOD, UNREACHABLE };
static unsigned kind;
static bool good;
static bool document;	/* there is an error document */
static CURLcode plan(void)
{
	if (kind == UNREACHABLE) {
		status = 0;
		return CURLE_COULDNT_CONNECT;
	}
	delivered = 0;
	zused = false;
	if (!good) {
		status = (long)vf_range(400, 599);
		VF_ASSUME((kind == MISSING) == (status == 404 || status == 410));
		if (document) {
			char e[2] = { 'n', 'o' };
			size_t r = wcb(e, 1, 2, wdata);
			VF_ASSUME(r != 2);
			return CURLE_WRITE_ERROR;
		}
		return CURLE_OK;
	}
	status = 200;
	delivered = 5;
	char piece[5];
	for (int i = 0; i < 5; i++) piece[i] = (char)body[i];
	size_t r = wcb(piece, 1, 5, wdata);
	VF_CHECK(r == 5, "the body is accepted");
	VF_ASSUME(r == 5);
	return CURLE_OK;
}
void harness(void)
{
	body[0] = 0x28; body[1] = 0xb5; body[2] = 0x2f; body[3] = 0xfd; body[4] = vf_nd8();
	magic_ok = true;
	struct store *s = store_http_new(BASE);
	VF_CHECK(s != NULL, "the store can be set up");
	unsigned failures = 0;
	out_max = 1;
	vf_hash(body + 4, 1, cur_id);
	for (unsigned q = 0; q < sizeof(KINDS) - 1; q++) {
		uint8_t id[32];
		memcpy(id, cur_id, 32);
		document = KINDS[q] == 'E';
		good = KINDS[q] == 'g';
		kind = good ? GOOD : KINDS[q] == 'u' ? UNREACHABLE : KINDS[q] == 'e' || KINDS[q] == 'E' ? SERVER_ERROR
		     : KINDS[q] == 'm' ? MISSING : vf_ndb() ? SERVER_ERROR : MISSING;
		performs = sleeps = 0;
		url_set = false;
		ssize_t r = store_get_chunk(s, id, out, 1);
		if (kind == GOOD) {
			VF_CHECK(r == 1 && out[0] == body[4], "a chunk that has been transferred is returned");
			failures = 0;
		} else if (kind == MISSING) {
			VF_CHECK(r == 0, "a missing chunk is not a failure");
		} else {
			failures++;
			VF_CHECK(kind != UNREACHABLE || performs == 10, "there are ten attempts");
			if (failures > 10) {
				VF_CHECK(r < 0, "the store gives up with the eleventh failure in a row");
				VF_REACH("gave up");
				return;
			}
			VF_CHECK(r == 0, "the store does not give up before the eleventh failure in a row");
		}
	}
	VF_REACH("did not give up");
}
#endif

#ifdef URL_CHECKED
/* C09: the URL of a chunk */
static char expect[400];
static unsigned expect_len, urls;
static const char base_init[] = BASE;
static char base[sizeof(base_init)];
static CURLcode plan(void) { status = 404; return CURLE_OK; }
static char hexdigit(unsigned v) { return (char)(v < 10 ? '0' + v : 'a' + (v - 10)); }
static void check_url(const char *u)
{
	urls++;
	for (unsigned i = 0; i < sizeof(base); i++)
		if (i < expect_len)
			VF_CHECK(u[i] == base[i], "the URL begins with the base URL");
	u += expect_len;
	VF_CHECK(u[0] == '/' && u[5] == '/', "the URL has a directory");
	for (int i = 0; i < 4; i++)
		VF_CHECK(u[1 + i] == hexdigit(i % 2 ? cur_id[i / 2] & 15 : cur_id[i / 2] >> 4), "the directory is the beginning of the id");
	for (int i = 0; i < 64; i++)
		VF_CHECK(u[6 + i] == hexdigit(i % 2 ? cur_id[i / 2] & 15 : cur_id[i / 2] >> 4), "the file is named after the id");
	for (int i = 0; i < (ENC ? 11 : 7); i++)
		VF_CHECK(u[70 + i] == (ENC ? ".cacnk.enc" : ".cacnk")[i], "the file has the right extension");
}
void harness(void)
{
	unsigned n = sizeof(base) - 1;
	for (unsigned i = 0; i < n; i++) {
		base[i] = base_init[i];
		if (base[i] == '?') {	/* an arbitrary character */
			base[i] = (char)vf_nd8();
			VF_ASSUME(base[i] != 0);
		}
	}
	unsigned hash = n, end;
	for (unsigned i = 0; i < n; i++)
		if (base[i] == '#') hash = i;
	end = hash;
	if (end > 0 && base[end - 1] == '/') end--;
	expect_len = end;
	bool bad = hash + 1 < n && !ENC;	/* parameters that do not exist */
	struct store *s = store_http_new(base);
	VF_CHECK((s == NULL) == bad, "a store is set up unless it has unknown parameters");
	if (!s) {
		VF_REACH("refused");
		return;
	}
	for (unsigned q = 0; q < 2; q++) {
		uint8_t id[32];
		for (int i = 0; i < 32; i++) id[i] = cur_id[i] = vf_nd8();
		performs = sleeps = 0;
		url_set = false;
		VF_CHECK(store_get_chunk(s, id, out, 1) == 0, "harness: not found");
	}
	VF_CHECK(urls == 2, "the URL is set for every request");
	VF_REACH("requested");
	store_free(s);
}
#endif
