/* utils.c: readall / preadall / writeall / pwriteall under an arbitrary schedule
 * of short transfers, interruptions and I/O errors.
 * Small files, every byte compared. */
#include "vf.h"
#define VF_NFILES 1
#define VF_IOMAX 8
#include "vf_env.c"
#include "vf_fs.c"
#include "utils.h"

#ifndef K_SHORT
#define K_SHORT 3
#endif
#define N EXACT
#define FCAP (N + 2)
#define OFFMAX 2
static uint8_t content[FCAP], before[FCAP];
static uint8_t buf[N + 2];

void harness(void)
{
	struct vf_file *f = &vf_files[0];
	uint64_t len = vf_range(0, N), fsize, off = vf_range(0, OFFMAX);
	f->path = "f";
	f->kind = VF_REG;
	static uint8_t orig[N + 2];
	fsize = vf_range(0, FCAP);
	for (unsigned i = 0; i < FCAP; i++)
		before[i] = content[i] = (i < fsize || OP < 2) ? vf_nd8() : 0;
	for (unsigned i = 0; i < N + 2; i++)
		orig[i] = buf[i] = vf_nd8();
	f->data = content;
	f->cap = FCAP;
	f->size = fsize;
	vf_budget_short = K_SHORT;
	vf_budget_eintr = 2;
	vf_budget_eio = 1;

	int fd = vf_open("f", O_RDWR);
	vf_fds[0].pos = off;
	int ret;
#if OP == 0
	ret = readall(fd, buf + 1, len);
#elif OP == 1
	ret = preadall(fd, buf + 1, len, (off_t)off);
#elif OP == 2
	ret = writeall(fd, buf + 1, len);
#else
	ret = pwriteall(fd, buf + 1, len, (off_t)off);
#endif

#if OP < 2
	bool enough = len == 0 || (off <= fsize && fsize - off >= len);
	VF_CHECK((ret >= 0) == (enough && !vf_eio_happened),
	         "a full read succeeds exactly when the data is there and no I/O error occurs");
	VF_CHECK(buf[0] == orig[0], "bytes before the buffer are untouched");
	for (unsigned i = 0; i < N + 1; i++) {
		if (i >= len)
			VF_CHECK(buf[1 + i] == orig[1 + i], "bytes after the requested length are untouched");
		else if (ret >= 0)
			VF_CHECK(buf[1 + i] == content[off + i], "the buffer holds the file's bytes, in place");
	}
	for (unsigned i = 0; i < FCAP; i++)
		VF_CHECK(content[i] == before[i], "reading does not alter the file");
	if (ret >= 0 && OP == 0)
		VF_CHECK(vf_fds[0].pos == off + len, "the file position advanced by the length read");
	if (OP == 1)
		VF_CHECK(vf_fds[0].pos == off, "a positioned read leaves the file position alone");
	if (ret >= 0 && len > N - 2 && vf_budget_eintr == 0 && vf_budget_short == 0) VF_REACH("complete after interruptions and short transfers");
	if (ret < 0 && !vf_eio_happened) VF_REACH("short file");
#else
	VF_CHECK((ret >= 0) == !vf_eio_happened,
	         "a full write succeeds exactly when no I/O error occurs");
	for (unsigned i = 0; i < N + 2; i++)
		VF_CHECK(buf[i] == orig[i], "writing does not alter the buffer");
	for (unsigned i = 0; i < FCAP; i++) {
		bool in = i >= off && i < off + len;
		if (!in)
			VF_CHECK(content[i] == before[i], "bytes outside the written range are untouched");
		else if (ret >= 0)
			VF_CHECK(content[i] == orig[1 + (i - off)], "the file holds the buffer's bytes, in place");
	}
	if (ret >= 0 && OP == 2)
		VF_CHECK(vf_fds[0].pos == off + len, "the file position advanced by the length written");
	if (ret >= 0 && len > N - 2 && vf_budget_eintr == 0 && vf_budget_short == 0) VF_REACH("complete after interruptions and short transfers");
	if (ret < 0) VF_REACH("I/O error");
#endif
}
