/* chunker.c: chunker_scan_fd for arbitrary chunk boundaries and reads.
 * chunker_scan/_reset/_get_id (decided by C14) are replaced by a plan of
 * arbitrary boundaries; every read may deliver any number of bytes. */
#define VF_OWN_SHA
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "chunker.h"

#ifndef NPLAN
#define NPLAN 2
#endif
static uint8_t stream[LEN];
static uint64_t size, pos, start, cur, plan[NPLAN + 1];
static unsigned k, n_cb, stop_at, calls, resets, eintr;
static bool ended, io_failed, have_id;
static int dummy;

void chunker_reset(struct chunker *c) { (void)c; resets++; cur = 0; have_id = false; }
void chunker_get_id(struct chunker *c, uint8_t *id)
{
	(void)c;
	for (int i = 0; i < 32; i++) id[i] = (uint8_t)i;
	id[3] = (uint8_t)start;
	id[30] = (uint8_t)cur;
	have_id = true;
}
size_t chunker_scan(struct chunker *c, uint8_t *buf, size_t len)
{
	(void)c;
	VF_CHECK(resets == k + 1, "the chunker is reset for every chunk");
	VF_CHECK(len > 0 && start + cur + len <= pos, "only bytes that have been read are scanned");
	uint64_t j = vf_nd64();
	VF_ASSUME(j < len);
	VF_CHECK(buf[j] == stream[start + cur + j], "the bytes of the file are scanned in order");
	if (cur + len < plan[k]) {
		cur += len;
		return (size_t)-1;
	}
	uint64_t r = plan[k] - cur;
	cur = plan[k];
	k++;
	return r;
}
off_t vf_lseek(int fd, off_t o, int w)
{
	(void)fd;
	VF_CHECK(w == SEEK_SET && o == 0, "harness: only rewinding is modelled");
	if (vf_ndb()) { io_failed = true; errno = ESPIPE; return -1; }
	pos = 0;
	return 0;
}
ssize_t vf_read(int fd, void *p, size_t n)
{
	(void)fd;
	if (vf_ndb()) {
		if (eintr < 1 && vf_ndb()) { eintr++; errno = EINTR; return -1; }
		io_failed = true;
		errno = EIO;
		return -1;
	}
	uint64_t r = size - pos;
	if (r > n) r = n;
	if (r > 1) r = vf_range(1, r);
	VF_ASSUME(calls < 2 || r == size - pos || r == n);
	calls++;
	for (uint64_t i = 0; i < LEN; i++)
		if (i < r)
			((uint8_t *)p)[i] = stream[pos + i];
	pos += r;
	return (ssize_t)r;
}
ssize_t vf_pread(int fd, void *p, size_t n, off_t o) { (void)fd; (void)p; (void)n; (void)o; VF_CHECK(0, "harness: pread not modelled"); return -1; }

static int cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
{
	VF_CHECK(arg == &dummy, "the caller's argument is passed through");
	VF_CHECK(!ended, "nothing is reported after the consumer failed");
	VF_CHECK(offset == start, "a chunk starts where the previous one ended");
	VF_CHECK(len == cur && len > 0, "a chunk ends at the boundary");
	VF_CHECK(len == plan[n_cb] || (start + len == size && len < plan[n_cb]), "no chunk is cut short but the last one");
	VF_CHECK(have_id && id[3] == (uint8_t)offset && id[30] == (uint8_t)len && id[7] == 7, "the id is that of the chunk");
	start += len;
	if (n_cb++ == stop_at) { ended = true; return -1; }
	return 0;
}

void harness(void)
{
	for (unsigned i = 0; i < LEN; i++)
		stream[i] = vf_nd8();
	size = vf_range(0, LEN);
	for (unsigned i = 0; i < NPLAN; i++)
		plan[i] = vf_range(MINCHUNK, 255);
	plan[NPLAN] = 255;
	stop_at = (unsigned)vf_range(0, NPLAN);
	struct chunker_params params = { 16384, 65536, 262144 };
	pos = size;
	int ret = chunker_scan_fd(5, &params, cb, &dummy);
	VF_CHECK(ret >= 0 || io_failed || ended, "scanning a readable file succeeds");
	if (ret >= 0) {
		VF_CHECK(!io_failed, "an I/O error is reported");
		VF_CHECK(!ended, "a failing consumer ends the scan with an error");
		VF_CHECK(start == size, "the chunks cover the whole file");
		if (n_cb == 2) VF_REACH("scan completed");
		if (size == 0) VF_REACH("empty file");
	} else if (ended) {
		VF_REACH("consumer failed");
	}
}
