/* utils.c: readall / preadall / writeall / pwriteall for any length up to 2^40,
 * any file offset and size, under any schedule of short transfers,
 * interruptions and errors (any errno) over the first CALLS-1 system calls.  The system-call stand-ins
 * do not move data: they check buffer position and file offset of every
 * transfer. */
#include "vf.h"
#include "vf_env.c"
#include "utils.h"

#ifndef CALLS
#define CALLS 4
#endif
static uint8_t buf[4];			/* never dereferenced */
static uint64_t len, off, file_left, pos;
static int calls, shorts, eintrs;
static bool failed;
static uint64_t done, want_at;		/* bytes transferred so far; file offset of the next */
#ifdef VF_CBMC
#define POFF(p) ((uint64_t)__CPROVER_POINTER_OFFSET(p))
#else
#define POFF(p) ((uint64_t)((uintptr_t)(p) - (uintptr_t)buf))
#endif

static ssize_t xfer(const void *p, size_t n, uint64_t at, bool limit)
{
	bool last = ++calls >= CALLS;
	uint64_t what = last ? 0 : vf_range(0, 3);
	if (what == 1) { eintrs++; errno = EINTR; return -1; }
	if (what == 2) { failed = true; int e = (int)vf_range(1, 133); VF_ASSUME(e != EINTR && e != EAGAIN); errno = e; return -1; }
	uint64_t r = n;
	if (limit) {
		uint64_t avail = file_left - done;	/* the file ends file_left bytes after off */
		if (r > avail)
			r = avail;
	}
	if (r > 1 && what == 3) { shorts++; r = vf_range(1, r - 1); }
	if (r) {
		VF_CHECK(r <= len - done, "no byte outside the given buffer is transferred");
		VF_CHECK(POFF(p) == done, "the next transfer starts at the first byte not yet transferred");
		VF_CHECK(at == want_at, "every byte goes to or comes from its own file offset");
	}
	done += r;
	want_at += r;
	return (ssize_t)r;
}
ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; ssize_t r = xfer(p, n, pos, true); if (r > 0) pos += (uint64_t)r; return r; }
ssize_t vf_write(int fd, const void *p, size_t n) { (void)fd; ssize_t r = xfer(p, n, pos, false); if (r > 0) pos += (uint64_t)r; return r; }
ssize_t vf_pread(int fd, void *p, size_t n, off_t o) { (void)fd; return xfer(p, n, (uint64_t)o, true); }
ssize_t vf_pwrite(int fd, const void *p, size_t n, off_t o) { (void)fd; return xfer(p, n, (uint64_t)o, false); }
off_t vf_lseek(int fd, off_t o, int w)
{
	(void)fd;
	if (w == SEEK_SET) pos = (uint64_t)o;
	else if (w == SEEK_CUR) pos += (uint64_t)o;
	else pos = off + file_left + (uint64_t)o;
	return (off_t)pos;
}
int vf_close(int fd) { (void)fd; return 0; }
int vf_open(const char *p, int f, ...) { (void)p; (void)f; return -1; }
int vf_fstat(int fd, struct stat *st) { (void)fd; (void)st; return -1; }
int vf_ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; return -1; }

void harness(void)
{
	len = vf_range(0, (uint64_t)1 << 40);
	off = vf_range(0, (uint64_t)1 << 62);
	file_left = vf_range(0, (uint64_t)1 << 62);
	want_at = off;
	pos = (OP & 1) ? vf_range(0, (uint64_t)1 << 62) : off;
	uint64_t pos0 = pos;
	int ret;
#if OP == 0
	ret = readall(5, buf, len);
#elif OP == 1
	ret = preadall(5, buf, len, (off_t)off);
#elif OP == 2
	ret = writeall(5, buf, len);
#else
	ret = pwriteall(5, buf, len, (off_t)off);
#endif
#if OP < 2
	bool enough = file_left >= len;
	VF_CHECK((ret >= 0) == (enough && !failed),
	         "a full read succeeds exactly when the data is there and no I/O error occurs");
	if (ret < 0 && !failed) VF_REACH("short file");
#else
	VF_CHECK((ret >= 0) == !failed, "a full write succeeds exactly when no I/O error occurs");
	if (ret < 0) VF_REACH("I/O error");
#endif
	if (ret >= 0)
		VF_CHECK(done == len, "success means every byte was transferred");
	if (OP & 1)
		VF_CHECK(pos == pos0, "positioned transfers leave the file position alone");
	else if (ret >= 0)
		VF_CHECK(pos == want_at, "the file position advances by the length");
	if (ret >= 0 && len > 1000000 && eintrs && shorts) VF_REACH("complete after interruptions and short transfers");
}
