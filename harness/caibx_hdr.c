/* caibx.c: caibx_load_header accepts exactly the well-formed blob indices.
 * The index is a file (or block device) of arbitrary size whose first 64 and
 * last 40 bytes are arbitrary (everything between reads as arbitrary too). */
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "caibx.h"

#ifndef NMASK
#define NMASK 0xfff
#define NSHIFT 0
#endif
#ifndef SHORT
#define SHORT 3
#endif
static uint8_t head[64], foot[40];
static uint64_t fsize, pos;
static int kind, calls;
static bool failed, ok, in_readall;

/* one injected fault per run: system call number fault_at (counting from 0) ... */
enum { F_NONE, F_EINTR, F_EIO, F_SHORT };
static int fault_at, fault_kind;

ssize_t vf_pread(int fd, void *p, size_t n, off_t o)
{
	(void)fd;
	uint64_t at = (uint64_t)o;
	uint8_t *b = p;
	int f = !in_readall && calls++ == fault_at ? fault_kind : F_NONE;
	if (f == F_EINTR) { errno = EINTR; return -1; }
	if (f == F_EIO) { errno = EIO; failed = true; return -1; }
	if (f == F_SHORT && n > 1)
		n = SHORT < n ? SHORT : n - 1;
	if (at >= fsize)
		return 0;
	if (n > fsize - at)
		n = fsize - at;
#ifndef EXACT_IO
	if (at >= fsize - 40 && fsize >= 104) {
		uint64_t k = at - (fsize - 40);
		for (unsigned i = 0; i < 40; i++)
			if (i < n)
				b[i] = foot[k + i];
		return (ssize_t)n;
	}
#endif
	/* the middle of the table reads as zeros */
	for (uint64_t i = 0; i < 40; i++)
		if (i < n)
			b[i] = at + i < 64 ? head[at + i] :
				at + i >= fsize - 40 ? foot[at + i - (fsize - 40)] : 0;
	VF_CHECK(n <= 40, "harness: transfer larger than the model");
	return (ssize_t)n;
}
ssize_t vf_read(int fd, void *p, size_t n)
{
	ssize_t r = vf_pread(fd, p, n, (off_t)pos);
	if (r > 0)
		pos += (uint64_t)r;
	return r;
}
off_t vf_lseek(int fd, off_t o, int w)
{
	(void)fd;
	if (calls++ == fault_at && fault_kind == F_EIO) { failed = true; errno = EIO; return -1; }
	if (w == SEEK_SET) pos = (uint64_t)o;
	else if (w == SEEK_CUR) pos += (uint64_t)o;
	else pos = fsize + (uint64_t)o;
	return (off_t)pos;
}
#ifndef EXACT_IO
/* contract of readall, decided on its own by C20 */
int readall(int fd, uint8_t *buf, size_t len)
{
	bool eof = len > (pos < fsize ? fsize - pos : 0);
	bool hit = calls++ == fault_at && fault_kind == F_EIO;
	if (hit) failed = true;
	if (eof || hit) {
		pos = vf_range(pos, pos + len);
		return -1;
	}
	if (pos < 64 && pos + len <= 64) {
		for (uint64_t i = 0; i < 64; i++)
			if (i < len)
				buf[i] = head[pos + i];
	} else {
		in_readall = true;
		ssize_t r = vf_pread(fd, buf, len, (off_t)pos);
		in_readall = false;
		(void)r;
	}
	pos += len;
	return 0;
}
#endif
int vf_fstat(int fd, struct stat *st)
{
	(void)fd;
	st->st_mode = (kind == 0 ? S_IFREG : kind == 1 ? S_IFBLK : kind == 2 ? S_IFCHR : S_IFDIR) | 0600;
	st->st_size = kind == 0 ? (off_t)fsize : 0;
	return 0;
}
int vf_ioctl(int fd, unsigned long req, ...)
{
	(void)fd;
	if (req != BLKGETSIZE64 || kind != 1) { errno = ENOTTY; return -1; }
	va_list ap;
	va_start(ap, req);
	*va_arg(ap, uint64_t *) = fsize;
	va_end(ap);
	return 0;
}
int vf_close(int fd) { (void)fd; return 0; }
int vf_open(const char *p, int f, ...) { (void)p; (void)f; return -1; }
ssize_t vf_write(int fd, const void *p, size_t n) { (void)fd; (void)p; VF_CHECK(0, "the index is not written"); return (ssize_t)n; }
ssize_t vf_pwrite(int fd, const void *p, size_t n, off_t o) { (void)o; return vf_write(fd, p, n); }
void chunk_format_id(char *s, const uint8_t *id) { (void)id; s[0] = 0; }

static uint64_t le(const uint8_t *p)
{
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--)
		v = (v << 8) | p[i];
	return v;
}

static void go(uint64_t n, uint64_t rem, uint64_t start)
{
	struct chunker_params params = { 0 };
	size_t n_out = 0;
	calls = 0;
	failed = false;
	pos = start;		/* wherever the descriptor happens to be */
	int ret = caibx_load_header(7, &params, &n_out);

	uint64_t mn = le(head + 24), av = le(head + 32), mx = le(head + 40);
	bool valid = kind <= 1 && fsize >= 104 && rem == 0 &&
		le(head) >= 0x30 && le(head + 8) == UINT64_C(0x96824d9c7b129ff9) &&
		(le(head + 16) & ~UINT64_C(0xd000000000000000)) == 0 &&
		mn < av && av < mx && mx <= UINT32_MAX &&
		le(head + 56) == UINT64_C(0xe75b9e112f17417d) &&
		le(foot) == 0 && le(foot + 8) == 0 && le(foot + 16) == 0x30 &&
		le(foot + 24) == 16 + (n + 1) * 40 &&
		le(foot + 32) == UINT64_C(0x4b4f050e5549ecd1);

	if (ret >= 0) {
		VF_CHECK(valid, "only a well-formed index is accepted");
		VF_CHECK(!failed, "an I/O error is reported");
		VF_CHECK(n_out == n, "the number of entries follows from the size of the index");
		VF_CHECK(params.min_size == mn && params.avg_size == av && params.max_size == mx,
		         "the chunk size parameters are those of the index");
		ok = true;
	} else {
		VF_CHECK(!valid || failed, "a well-formed index is accepted");
	}
}

void harness(void)
{
	for (int i = 0; i < 64; i++) head[i] = vf_nd8();
	for (int i = 0; i < 40; i++) foot[i] = vf_nd8();
	kind = (int)vf_range(0, 3);
	uint64_t start = vf_range(0, 200);
	fault_kind = F_NONE;
#if defined(TINY)
	fsize = vf_range(0, 103);
	go(0, 0, start);
	if (!ok && fsize > 100) VF_REACH("rejected a truncated index");
#elif defined(FAULTS)
	/* one failing system call / readall, whichever */
	fault_kind = F_EIO;
	fault_at = (int)vf_range(0, 9);
	fsize = 104 + 40 * ENTRIES;
	go(ENTRIES, 0, start);
	if (ok) VF_REACH("accepted");
	if (failed) VF_REACH("failed");
#elif defined(EXACT_IO)
	fsize = 104 + 40 * ENTRIES;
	fault_at = SHORT_AT;
	fault_kind = F_SHORT;
	go(ENTRIES, 0, start);
	if (ok) VF_REACH("accepted");
#else
	uint64_t n = (vf_nd64() & NMASK) << NSHIFT, rem = vf_nd64() & 63;
	VF_ASSUME(rem < 40);
	fsize = 104 + 40 * n + rem;
	fault_at = 0;
	go(n, rem, start);
	if (ok && n == 0) VF_REACH("accepted an index without entries");
	if (ok && n > 1000 && kind == 1) VF_REACH("accepted a large index on a block device");
	if (!ok && rem == 0 && kind == 0) VF_REACH("rejected");
#endif
}
