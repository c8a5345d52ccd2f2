/* chunker.c: which chunk size parameters are accepted, and that accepted ones
 * give the discriminator of casync. */
#define VF_OWN_SHA
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "chunker.h"

int vf_SHA256_Init(SHA256_CTX *c) { (void)c; return 1; }
int vf_SHA256_Update(SHA256_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }
int vf_SHA256_Final(unsigned char *md, SHA256_CTX *c) { (void)md; (void)c; return 1; }
ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; return 0; }
ssize_t vf_pread(int fd, void *p, size_t n, off_t o) { (void)fd; (void)p; (void)n; (void)o; return 0; }
off_t vf_lseek(int fd, off_t o, int w) { (void)fd; (void)w; return o; }

static int no_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
{
	(void)offset; (void)len; (void)id; (void)arg;
	VF_CHECK(0, "an empty file has no chunks");
	return 0;
}

static void check(struct chunker_params p);
void harness(void)
{
#ifdef SET
	struct chunker_params p = { 1, 2, 3 };
	uint64_t mn = vf_nd64(), av = vf_nd64(), mx = vf_nd64();
	int ret = chunker_params_set(&p, mn, av, mx);
	bool valid = mn < av && av < mx && mx <= UINT32_MAX;
	VF_CHECK((ret >= 0) == valid, "exactly ascending 32 bit sizes are accepted");
	if (valid) {
		VF_CHECK(p.min_size == mn && p.avg_size == av && p.max_size == mx, "the sizes are stored unchanged");
		VF_REACH("accepted");
	} else {
		VF_REACH("rejected");
	}
#else
	struct chunker_params p;
	p.min_size = vf_nd32();
#ifdef AVG_LO
	p.avg_size = (uint32_t)vf_range(AVG_LO, AVG_HI);
#else
	static const uint32_t avgs[] = { 0, 1, 2, 3, 50, 256, 1024, 4096, 16384, 65535, 65536, 65537, 131072, 262144, 1048576, 4194304, 9324551, 9324552, 16777216, UINT32_MAX };
	p.avg_size = 0;
	uint64_t which = vf_nd64();
	for (unsigned i = 0; i < sizeof(avgs) / sizeof(*avgs); i++)
		if (which == i) {
			p.avg_size = avgs[i];
			check(p);
			return;
		}
	return;
#endif
	p.max_size = vf_nd32();
	check(p);
#endif
}
static void check(struct chunker_params p)
{
	struct chunker c;
	int ret = chunker_init(&c, &p);
	double divisor = -1.42888852e-7 * p.avg_size + 1.33237515;
	if (ret >= 0) {
		VF_CHECK(p.avg_size >= 2 && divisor > 0, "only sizes that give a positive discriminator are accepted");
		size_t want = (size_t)(p.avg_size / divisor);
#ifndef NO_QUOTIENT
		VF_CHECK(c.discriminator == want, "the discriminator is casync's");
#endif
		VF_CHECK(c.discriminator >= 1, "the discriminator is positive");
		VF_CHECK(c.params.min_size == p.min_size && c.params.avg_size == p.avg_size && c.params.max_size == p.max_size,
		         "the chunker works with the given sizes");
		VF_REACH("accepted");
	} else {
		VF_CHECK(!(p.avg_size >= 2 && divisor > 0), "sizes with a positive discriminator are accepted");
		VF_REACH("rejected");
	}
	ret = chunker_scan_fd(4, &p, no_cb, NULL);
	VF_CHECK((ret >= 0) == (p.avg_size >= 2 && divisor > 0), "chunking a file fails exactly if the sizes are unusable");
}
