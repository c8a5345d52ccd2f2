/* chunker.c: chunk boundaries are a function of the data alone -- those of the
 * casync chunker -- and the id covers exactly the bytes of the chunk.
 * The reference hashes the last 48 bytes from scratch at every position. */
#define VF_OWN_SHA
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "chunker.h"
#include "buzhash.h"
#ifndef SEED
#define SEED 12345
#endif

static uint8_t stream[LEN];
static uint64_t hashed, chunk_start;
static unsigned inits;

int vf_SHA256_Init(SHA256_CTX *c) { (void)c; hashed = 0; inits++; return 1; }
int vf_SHA256_Update(SHA256_CTX *c, const void *p, size_t n)
{
	(void)c;
	if (n) {
		uint64_t j = vf_nd64();
		VF_ASSUME(j < n);
		VF_CHECK(chunk_start + hashed + n <= LEN, "no more bytes are hashed than have been passed in");
		VF_CHECK(((const uint8_t *)p)[j] == stream[chunk_start + hashed + j], "the bytes of the chunk are hashed in order");
	}
	hashed += n;
	return 1;
}
int vf_SHA256_Final(unsigned char *md, SHA256_CTX *c) { (void)c; md[0] = 0xa5; return 1; }

static uint32_t rol(uint32_t x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }

static uint64_t ref_boundary(uint64_t start, uint32_t mn, uint32_t mx)
{
	/* number of bytes of the chunk that starts at start, 0: no boundary */
	for (uint64_t s = 48; start + s <= LEN; s++) {
		uint32_t h = 0;
		for (unsigned i = 0; i < 48; i++)
			h ^= rol(ref_table[stream[start + s - 48 + i]], 47 - i);
		if (s >= mx || (s >= mn && h % DISCR == DISCR - 1))
			return s;
	}
	return 0;
}

void harness(void)
{
	uint32_t seed = SEED;
	for (unsigned i = 0; i < LEN; i++) {
		seed = seed * 1103515245 + 12345;
		stream[i] = (uint8_t)(seed >> 16);
	}
#ifdef TABLE
	/* one arbitrary byte anywhere */
	uint64_t at = vf_range(0, LEN - 1);
	uint8_t v = vf_nd8();
	for (unsigned i = 0; i < LEN; i++)
		if (i == at) stream[i] = v;
#else
	static const unsigned sym[] = { SYM };
	for (unsigned i = 0; i < sizeof(sym) / sizeof(*sym); i++)
		stream[sym[i]] = vf_nd8();
#endif
	struct chunker_params params = { (uint32_t)vf_range(0, AVG - 1 < 200 ? AVG - 1 : 200), AVG, (uint32_t)vf_range(AVG + 1, AVG + 200) };
#ifdef TABLE
	VF_ASSUME(params.min_size == 0);
	params.max_size = AVG + 200;
#endif
	struct chunker c;
	VF_CHECK(chunker_init(&c, &params) == 0, "the parameters are accepted");
	uint64_t want = ref_boundary(0, params.min_size, params.max_size);

	/* the stream arrives in up to PARTS pieces */
	uint64_t pos = 0, got = 0;
	static const unsigned parts[] = { PARTS };
	for (unsigned k = 0; k <= sizeof(parts) / sizeof(*parts); k++) {
		uint64_t n = k == sizeof(parts) / sizeof(*parts) ? LEN - pos : parts[k];
		if (n == 0)
			break;
		size_t r = chunker_scan(&c, stream + pos, n);
		if (r == (size_t)-1) {
			pos += n;
			VF_CHECK(hashed == pos, "everything scanned so far has been hashed");
		} else {
			VF_CHECK(r <= n, "a boundary lies within the data passed in");
			got = pos + r;
			VF_CHECK(hashed == got, "exactly the bytes of the chunk have been hashed");
			break;
		}
	}
	VF_CHECK(got == want, "the boundary is that of the reference");
	if (got > 0 && got < LEN) VF_REACH("boundary found");
	if (got == 0) VF_REACH("no boundary");
}
