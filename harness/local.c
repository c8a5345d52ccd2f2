/* store-local.c: a seed with and without side-loaded index, over sequences of requests.
 * caibx.c, chunker.c and index.c by the contracts C12, C13, C15 and C17 decide. */
#include "vf.h"
#define VF_NFILES 2
#define VF_IOMAX 8
#define VF_WANT_HASH
#define VF_HASH_MAX 8
#include "utils.h"
#include "index.h"
#include "caibx.h"
#include "chunker.h"
#include "store-local.h"
#include "vf_env.c"
#include "vf_fs.c"
#include "absindex.h"

#define SIZE 6
static uint8_t file[SIZE], dummy[4];
static const unsigned layout[] = { LAYOUT };
#define NCH (sizeof(layout) / sizeof(*layout))
static uint8_t true_id[NCH][32];
static uint64_t true_off[NCH];
static unsigned scans, scan_fault, side_listed;
static bool scan_failed, side_bad;
static struct chunker_params params = { 2, 8, 64 };
#ifndef SIDE
#define SIDE 0
#endif
static struct { uint32_t len; uint8_t id[32]; } side[SIDE + 1];

void chunk_format_id(char *s, const uint8_t *id) { (void)id; s[0] = 0; }
static bool is_seed(int fd) { int k = vf_fdidx(fd); return k >= 0 && vf_fds[k].file == 0; }

int chunker_scan_fd(int fd, struct chunker_params *p, int (*cb)(uint64_t, uint32_t, uint8_t *, void *), void *arg)
{
	VF_CHECK(is_seed(fd), "the seed is scanned");
	VF_CHECK(p->min_size == params.min_size && p->avg_size == params.avg_size && p->max_size == params.max_size,
	         "the seed is scanned with the chosen parameters");
	unsigned n = NCH;
	if (scan_fault && vf_ndb()) {
		scan_fault--;
		scan_failed = true;
		n = (unsigned)vf_range(0, NCH);
	}
	for (unsigned k = 0; k < NCH; k++)
		if (k < n) {
			uint8_t id[32];
			memcpy(id, true_id[k], 32);
			if (cb(true_off[k], layout[k], id, arg) < 0)
				return -1;
		}
	if (scan_failed)
		return -1;
	scans++;
	return 0;
}
int caibx_load_header(int fd, struct chunker_params *p, size_t *n)
{
	VF_CHECK(!is_seed(fd), "the side-loaded index is parsed");
#if SIDE
	if (vf_ndb()) { side_bad = true; return -1; }
	*p = params;
	if (vf_ndb()) {
		side_bad = true;
		p->min_size = vf_nd32(); p->avg_size = vf_nd32(); p->max_size = vf_nd32();
		VF_ASSUME(p->min_size != params.min_size || p->avg_size != params.avg_size || p->max_size != params.max_size);
	}
	*n = SIDE;
	return 0;
#else
	(void)p; (void)n;
	side_bad = true;
	return -1;
#endif
}
int caibx_iterate_entries(int fd, struct chunker_params *p, size_t n, int (*cb)(uint64_t, uint32_t, uint8_t *, void *), void *arg)
{
	(void)p;
	VF_CHECK(!is_seed(fd) && n == SIDE, "all entries of the side-loaded index are iterated");
	uint64_t off = 0;
	for (unsigned k = 0; k < SIDE; k++) {
		if (vf_ndb()) { side_bad = true; return -1; }
		uint8_t id[32];
		memcpy(id, side[k].id, 32);
		if (cb(off, side[k].len, id, arg) < 0)
			return -1;
		off += side[k].len;
	}
	return 0;
}

static void small_id(uint8_t *id)
{
	/* the shape of digests of the hash stand-in for up to 4 bytes */
	id[8] = vf_nd8(); id[0] = vf_nd8(); id[31] = vf_nd8(); id[15] = vf_nd8(); id[16] = vf_nd8();
}

void harness(void)
{
	for (int i = 0; i < SIZE; i++) file[i] = vf_nd8();
	uint64_t o = 0;
	for (unsigned k = 0; k < NCH; k++) {
		true_off[k] = o;
		vf_hash(file + o, layout[k], true_id[k]);
		o += layout[k];
	}
	for (unsigned k = 0; k < SIDE; k++) {
		side[k].len = (uint32_t)vf_range(1, UINT32_MAX);
		small_id(side[k].id);
	}
	vf_files[0].path = "s";
	vf_files[0].kind = vf_ndb() ? VF_REG : VF_BLK;
	vf_files[0].data = file;
	vf_files[0].size = vf_files[0].cap = o;
	vf_files[1].path = "i";
	vf_files[1].kind = SIDE && vf_ndb() ? VF_REG : VF_ABSENT;
	vf_files[1].data = dummy;
	vf_files[1].size = vf_files[1].cap = 4;
	bool sideloaded = SIDE && vf_files[1].kind == VF_REG;
	vf_budget_eio = FAULTS;
	scan_fault = FAULTS;

	VF_CHECK(store_local_new("missing", NULL, &params) == NULL, "a seed that does not exist is refused");
	struct store *s = store_local_new("s", SIDE ? "i" : NULL, &params);
	if (!s) {
		VF_CHECK(scan_failed, "a seed can be used unless scanning it fails");
		return;
	}
	VF_CHECK(!scan_failed, "a seed that cannot be scanned is refused");
	if (side_bad)
		sideloaded = false;
	if (!sideloaded) {
		VF_CHECK(scans == 1, "without usable index the seed is scanned");
		if (SIDE) VF_REACH("index discarded when it was loaded");
	}
	VF_CHECK(vf_files[0].creats + vf_files[0].truncs + vf_files[1].creats + vf_files[1].truncs == 0, "seeds and indices are left alone");

	for (unsigned q = 0; q < QUERIES; q++) {
		uint8_t id[32] = { 0 }, arg_id[32], buf[16];
		small_id(id);
		memcpy(arg_id, id, 32);
		for (int i = 0; i < 16; i++) buf[i] = 0xa5;
		size_t max = (size_t)vf_range(0, 8);
		bool rescanned = scans > 0;
		bool eio_before = vf_files[0].eio || scan_failed;
		ssize_t r = store_get_chunk(s, arg_id, buf, max);
		bool eio = vf_files[0].eio || scan_failed;
		bool in_layout = false, listed = false;
		for (unsigned k = 0; k < NCH; k++)
			in_layout = in_layout || vf_hash_eq(true_id[k], id);
		for (unsigned k = 0; k < SIDE; k++)
			listed = listed || vf_hash_eq(side[k].id, id);
		for (size_t i = 0; i < 16; i++)
			VF_CHECK(i < max || buf[i] == 0xa5, "nothing is written beyond the buffer");
		if (r > 0) {
			VF_CHECK((size_t)r <= max, "the data fits the buffer");
			uint8_t h[32];
			vf_hash(buf, (size_t)r, h);
			VF_CHECK(vf_hash_eq(h, id), "the data returned hashes to the id");
			VF_CHECK(eio_before == eio || scans, "no data after a failing read");
			VF_REACH("found");
			if (rescanned != (scans > 0)) VF_REACH("found after discarding the index");
		} else if (r == 0) {
			if (!sideloaded || rescanned || listed)
				VF_CHECK(!in_layout, "every chunk of the seed is found");
			VF_REACH("not found");
		} else {
			VF_CHECK(eio || id[8] > max, "failure only if reading fails or the chunk does not fit");
			VF_REACH("failed");
			return;	/* a store that failed is not asked again (C18) */
		}
	}
	store_free(s);
	for (unsigned i = 0; i < VF_NFILES; i++)
		VF_CHECK(vf_files[i].wopens + vf_files[i].writes + vf_files[i].creats + vf_files[i].truncs + vf_files[i].unlinks == 0,
		         "the seed and its index are only read");
	VF_REACH("done");
}
