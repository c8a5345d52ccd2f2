/* patchdd.c (whole program), C24: small files, the transfer size scaled down to
 * BLOCK bytes so that several blocks and a partial one are handled.
 *   SRC/DST sizes, SKIND/DKIND kinds of the files, FAIL_AT which of the fallible calls fails */
#include "vf.h"
#define VF_NFILES 2
#define VF_IOMAX 12
static unsigned fallible;
static bool fail_hook(void) { return ++fallible == FAIL_AT; }
#define VF_FAIL_HOOK fail_hook
#define VF_ON_WRITE(f, off, buf, n) on_write(f, off, buf, n)
static void on_write(int f, uint64_t off, const uint8_t *buf, uint64_t n);
#include "utils.h"
#define vf_isatty vf_isatty_unused
#define VF_OWN_EXIT
#include "vf_env.c"
#undef vf_isatty
#include "vf_fs.c"
int vf_isatty(int fd) { (void)fd; return TTY; }
#define CAP 12
static uint8_t src[CAP], dst[CAP], src0[CAP], dst0[CAP];
static bool written[CAP];

void show_progress(uint8_t percent, uint32_t *status) { (void)status; VF_CHECK(percent <= 100, "the progress is a percentage"); }
static void on_write(int f, uint64_t off, const uint8_t *buf, uint64_t n)
{
	(void)buf;
	VF_CHECK(f == 1, "only the destination is written");
	VF_CHECK(off + n <= SRC, "nothing beyond the size of the source is written");
	for (unsigned i = 0; i < CAP; i++)
		if (i >= off && i < off + n) written[i] = true;
}
static void finish(int ret)
{
	bool fits = DST >= SRC, kinds = SKIND <= VF_BLK && DKIND <= VF_BLK && SKIND && DKIND;
	bool fail = vf_eio_happened || vf_open_failed;
	VF_CHECK(vf_files[0].wopens + vf_files[0].writes + vf_files[1].creats + vf_files[1].truncs + vf_files[0].creats == 0, "the source is only read, nothing is created or truncated");
	if (!ARGS_OK || !fits || !kinds || fail)
		VF_CHECK((ret & 0xff) != 0, "a failing call, a destination that is too small or wrong arguments give a failure");
	else
		VF_CHECK((ret & 0xff) == 0, "success if nothing fails");
	if (!fits || !kinds || !ARGS_OK)
		VF_CHECK(vf_files[1].writes == 0, "a destination that is too small is left alone");
	for (unsigned i = 0; i < SRC; i++) {
		unsigned b = i - i % BLOCK;
		bool same = true;
		for (unsigned k = b; k <= i; k++) same = same && src0[k] == dst0[k];
		if (same) VF_CHECK(!written[i], "nothing is written before the first differing byte of a block");
		if (ret == 0) VF_CHECK(dst[i] == src0[i], "the destination starts with the source");
		else VF_CHECK(dst[i] == src0[i] || dst[i] == dst0[i], "every byte is the old or the new one");
		VF_CHECK(src[i] == src0[i], "the source is unchanged");
	}
	for (unsigned i = SRC; i < CAP; i++) VF_CHECK(dst[i] == dst0[i], "the rest of the destination is unchanged");
	VF_CHECK(vf_files[1].size == DST, "the size of the destination is unchanged");
	if (ret == 0) {
		VF_CHECK(vf_files[1].syncs > 0 && !vf_files[1].dirty, "everything has been flushed");
		VF_REACH("success");
	} else
		VF_REACH("failure");
}
void vf_exit(int code) { finish(code); vf_stop(); }
int vf_repo_main(int argc, char **argv);
void harness(void)
{
	for (unsigned i = 0; i < CAP; i++) {
		src[i] = src0[i] = vf_nd8();
		dst[i] = dst0[i] = vf_nd8();
	}
	vf_files[0].path = "s";
	vf_files[0].kind = SKIND;
	vf_files[0].data = src;
	vf_files[0].size = SRC;
	vf_files[0].cap = CAP;
	vf_files[1].path = "d";
	vf_files[1].kind = DKIND;
	vf_files[1].data = dst;
	vf_files[1].size = DST;
	vf_files[1].cap = CAP;
	static char *argv[] = { "patchdd", ARGS, NULL };
	finish(vf_repo_main((int)(sizeof(argv) / sizeof(*argv)) - 1, argv));
}
