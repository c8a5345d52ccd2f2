/* caibx.c: caibx_iterate_entries reports exactly the table's entries, in order. */
#include "vf.h"
#ifndef VN
#define VN 3
#endif
#define VF_NFILES 1
#define VF_IOMAX 40
#include "vf_env.c"
#include "vf_fs.c"
#include "utils.h"
#include "caibx.h"

void chunk_format_id(char *s, const uint8_t *id) { (void)id; s[0] = 0; }

static uint8_t file[64 + 40 * VN + 40];
static unsigned seen;
static unsigned stop_at;
static int dummy;
static bool bad_arg;

static uint64_t le(const uint8_t *p)
{
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--)
		v = (v << 8) | p[i];
	return v;
}
static uint64_t end_of(unsigned i) { return le(file + 64 + 40 * i); }
static uint64_t start_of(unsigned i) { return i ? end_of(i - 1) : 0; }
/* entry i is representable: not empty, not running backwards, fits 32 bits */
static bool good(unsigned i)
{
	return end_of(i) > start_of(i) && end_of(i) - start_of(i) <= UINT32_MAX;
}

static int cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
{
	VF_CHECK(seen < VN, "no more entries than the table has");
	unsigned i = seen++;
	VF_CHECK(offset == start_of(i), "an entry starts where the previous one ended");
	VF_CHECK(len == end_of(i) - start_of(i), "an entry's length is the distance to its end offset");
	VF_CHECK(len != 0, "no empty entry is reported");
	for (int k = 0; k < 32; k++)
		VF_CHECK(id[k] == file[64 + 40 * i + 8 + k], "an entry's id is the one in the table");
	VF_CHECK(arg == &dummy, "the caller's argument is passed through");
	return i == stop_at ? -1 : 0;
}

void harness(void)
{
	for (unsigned i = 0; i < sizeof(file); i++)
		file[i] = vf_nd8();
	unsigned n = (unsigned)vf_range(0, VN);
	stop_at = (unsigned)vf_range(0, VN);
	struct chunker_params p = { vf_nd32(), vf_nd32(), vf_nd32() };
	vf_files[0].path = "i";
	vf_files[0].kind = VF_REG;
	vf_files[0].data = file;
	vf_files[0].size = sizeof(file);
	vf_files[0].cap = sizeof(file);
#ifdef VF_CONTRACT_IO
	vf_budget_eio = 1;
#endif
	int fd = vf_open("i", O_RDONLY);
	vf_fds[0].pos = vf_range(0, 200);
	int ret = caibx_iterate_entries(fd, &p, n, cb, &dummy);

	unsigned ok = 0;
	while (ok < n && good(ok))
		ok++;
	if (ret >= 0) {
		VF_CHECK(seen == n, "success means that every entry has been reported");
		VF_CHECK(ok == n, "success means that every entry is representable");
		VF_CHECK(!vf_eio_happened, "an I/O error is reported");
		VF_CHECK(n == 0 || stop_at >= n, "a failing consumer ends the iteration with an error");
		if (n == VN) VF_REACH("all entries reported");
	} else {
		VF_CHECK(vf_eio_happened || ok < n || stop_at < n, "a good table is iterated successfully");
		if (!vf_eio_happened) {
			if (stop_at < ok)
				VF_CHECK(seen == stop_at + 1, "nothing is reported after the consumer failed");
			else
				VF_CHECK(seen == ok, "every entry before the first bad one is reported");
		}
		if (n > 1 && seen == 1) VF_REACH("iteration ended early");
	}
}
