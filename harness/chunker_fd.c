/* chunker.c: chunker_scan_fd partitions a file into the reference's chunks. */
#define VF_OWN_SHA
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "chunker.h"
#include "buzhash.h"
#ifndef SEED
#define SEED 12345
#endif
#ifndef FAULT
#define FAULT 99
#endif
#ifndef FKIND
#define FKIND 0
#endif

static uint8_t stream[LEN];
static uint64_t pos, hashed, chunk_start;
static unsigned n_cb, reads, stop_at;
static bool ended, io_failed, short_seen;
static int dummy;
static uint64_t ref_len[LEN / 48 + 2];
static unsigned n_ref;

int vf_SHA256_Init(SHA256_CTX *c) { (void)c; hashed = 0; return 1; }
int vf_SHA256_Update(SHA256_CTX *c, const void *p, size_t n)
{
	(void)c;
	if (n) {
		uint64_t j = vf_nd64();
		VF_ASSUME(j < n);
		VF_CHECK(chunk_start + hashed + n <= LEN, "no more bytes are hashed than have been read");
		VF_CHECK(((const uint8_t *)p)[j] == stream[chunk_start + hashed + j], "the bytes of the chunk are hashed in order");
	}
	hashed += n;
	return 1;
}
/* the digest names the chunk's position: only the right bytes have been hashed */
int vf_SHA256_Final(unsigned char *md, SHA256_CTX *c)
{
	(void)c;
	for (int i = 0; i < 32; i++) md[i] = (unsigned char)(0xa0 + i);
	md[0] = (unsigned char)chunk_start;
	md[31] = (unsigned char)hashed;
	return 1;
}
off_t vf_lseek(int fd, off_t o, int w)
{
	(void)fd;
	VF_CHECK(w == SEEK_SET && o == 0, "harness: only rewinding is modelled");
	if (FAULT == 0) { io_failed = true; errno = ESPIPE; return -1; }
	pos = 0;
	return 0;
}
ssize_t vf_read(int fd, void *p, size_t n)
{
	(void)fd;
	static const unsigned parts[] = { PARTS, 0 };
	reads++;
	if (reads == FAULT) {
		if (FKIND) { errno = EINTR; return -1; }
		io_failed = true;
		errno = EIO;
		return -1;
	}
	static unsigned piece;
	uint64_t r = LEN - pos;
	if (piece < sizeof(parts) / sizeof(*parts) && parts[piece] && parts[piece] < r)
		r = parts[piece];
	piece++;
	if (r > n)
		r = n;
	for (uint64_t i = 0; i < LEN; i++)
		if (i < r)
			((uint8_t *)p)[i] = stream[pos + i];
	pos += r;
	return (ssize_t)r;
}
ssize_t vf_pread(int fd, void *p, size_t n, off_t o) { (void)fd; (void)p; (void)n; (void)o; VF_CHECK(0, "harness: pread not modelled"); return -1; }

static uint32_t rol(uint32_t x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static void reference(uint32_t mn, uint32_t mx)
{
	uint64_t start = 0;
	for (uint64_t e = 1; e <= LEN; e++) {
		uint64_t s = e - start;
		bool brk = e == LEN;
		if (s >= 48) {
			uint32_t h = 0;
			for (unsigned i = 0; i < 48; i++)
				h ^= rol(ref_table[stream[e - 48 + i]], 47 - i);
			if (s >= mx || (s >= mn && h % DISCR == DISCR - 1))
				brk = true;
		}
		if (brk) {
			ref_len[n_ref++] = s;
			start = e;
		}
	}
}

static int cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
{
	VF_CHECK(arg == &dummy, "the caller's argument is passed through");
	VF_CHECK(!ended, "nothing is reported after the consumer failed");
	VF_CHECK(n_cb < n_ref, "no more chunks than the data has");
	VF_CHECK(offset == chunk_start, "a chunk starts where the previous one ended");
	VF_CHECK(len == ref_len[n_cb], "the chunk ends at the reference's boundary");
	VF_CHECK(hashed == len, "exactly the bytes of the chunk have been hashed");
	VF_CHECK(id[0] == (uint8_t)offset && id[31] == (uint8_t)len && id[7] == 0xa7, "the id is the digest of the chunk");
	chunk_start += len;
	if (n_cb++ == stop_at) { ended = true; return -1; }
	return 0;
}

void harness(void)
{
	uint32_t seed = SEED;
	for (unsigned i = 0; i < LEN; i++) {
		seed = seed * 1103515245 + 12345;
		stream[i] = (uint8_t)(seed >> 16);
	}
#ifdef ALLSYM
	for (unsigned i = 0; i < LEN; i++)
		stream[i] = vf_nd8();
#endif
#ifdef SYM
	static const unsigned sym[] = { SYM };
	for (unsigned i = 0; i < sizeof(sym) / sizeof(*sym); i++)
		stream[sym[i]] = vf_nd8();
#endif
	struct chunker_params params = { MIN_SZ, AVG, MAX_SZ };
	reference(MIN_SZ, MAX_SZ);
	stop_at = (unsigned)vf_range(0, 4);
	pos = 17;
	int ret = chunker_scan_fd(5, &params, cb, &dummy);
	VF_CHECK(ret >= 0 || io_failed || ended, "scanning a readable file succeeds");
	if (ret >= 0) {
		VF_CHECK(!io_failed, "an I/O error is reported");
		VF_CHECK(!ended, "a failing consumer ends the scan with an error");
		VF_CHECK(chunk_start == LEN && n_cb == n_ref, "the chunks cover the whole file");
		VF_REACH("scan completed");
	} else {
		VF_REACH("scan failed");
	}
}
