/* target.c: the target as a store, over sequences of checks, writes and requests */
#include "vf.h"
#define VF_NFILES 1
#define VF_IOMAX 8
#define VF_WANT_HASH
#define VF_HASH_MAX 4
#include "utils.h"
#include "index.h"
#include "target.h"
#include "vf_env.c"
#include "vf_fs.c"
#include "absindex.h"

enum { W, C, G, S };	/* write, check, get, become a store */
static const struct { int op; unsigned range; } ops[] = { OPS };
#define NOPS (sizeof(ops) / sizeof(*ops))
static const struct { unsigned off, len; } range[] = { { 0, 2 }, { 2, 1 }, { 3, 3 }, { 6, 2 } };
static uint8_t file[8], shadow[8];
static uint8_t pool[3][32];
static struct { bool used, must; uint8_t id; } rec[4];

static void pick(uint8_t *id, unsigned s)
{
	for (int i = 0; i < 32; i++)
		id[i] = s == 0 ? pool[0][i] : s == 1 ? pool[1][i] : pool[2][i];
}

void harness(void)
{
	for (int i = 0; i < 8; i++) file[i] = shadow[i] = vf_nd8();
	for (int p = 0; p < 3; p++) {
		/* the shape of digests of the hash stand-in */
		pool[p][8] = vf_nd8(); pool[p][0] = vf_nd8();
		pool[p][31] = vf_nd8(); pool[p][15] = vf_nd8();
	}
	vf_files[0].path = "t";
	vf_files[0].kind = vf_ndb() ? VF_REG : VF_BLK;
	vf_files[0].data = file;
	vf_files[0].size = FILE_SIZE;
	vf_files[0].cap = 8;
	vf_budget_eio = FAULTS;
	VF_CHECK(target_new("missing") == NULL, "a target that does not exist is refused");
	struct target *t = target_new("t");
	VF_CHECK(t != NULL, "an existing target can be opened");
	VF_CHECK(vf_files[0].creats == 0 && vf_files[0].truncs == 0, "the target is neither created nor truncated");
	bool queryable = false;
	struct store *st = NULL;
	for (unsigned k = 0; k < NOPS; k++) {
		unsigned r = ops[k].range;
		uint8_t id[32], buf[8];
		unsigned s = 0;
		if (ops[k].op != S) {
			s = (unsigned)vf_range(0, 2);
			pick(id, s);
		}
		bool eio = vf_files[0].eio = false;
		if (ops[k].op == S) {
			st = target_as_store(t, ESTIMATE);
			VF_CHECK(st != NULL && st == target_as_store(t, 7), "the target can be used as a store");
			queryable = true;
		} else if (ops[k].op == W) {
			uint8_t d[3] = { vf_nd8(), vf_nd8(), vf_nd8() };
			int ret = target_write(t, d, range[r].len, range[r].off, id);
			eio = vf_files[0].eio;
			VF_CHECK(ret < 0 ? eio : !eio, "a write fails exactly if writing fails");
			if (ret >= 0) {
				for (unsigned i = 0; i < range[r].len; i++) {
					shadow[range[r].off + i] = d[i];
					VF_CHECK(file[range[r].off + i] == d[i], "the data is written to its range");
				}
				rec[r].used = true; rec[r].must = queryable; rec[r].id = (uint8_t)s;
			} else {
				for (unsigned i = 0; i < range[r].len; i++) shadow[range[r].off + i] = file[range[r].off + i];
			}
		} else if (ops[k].op == C) {
			int ret = target_check_chunk(t, buf, range[r].len, range[r].off, id);
			eio = vf_files[0].eio;
			uint8_t h[32];
			vf_hash(file + range[r].off, range[r].len, h);
			bool inside = range[r].off + range[r].len <= vf_files[0].size;
			bool good = inside && !eio && vf_hash_eq(h, id);
			VF_CHECK((ret == 1) == good, "a chunk is confirmed exactly if the target holds it");
			if (good) {
				rec[r].used = true; rec[r].must = queryable; rec[r].id = (uint8_t)s;
				VF_REACH("confirmed");
			}
		} else {
			size_t max = (size_t)vf_range(0, 8);
			ssize_t ret = st ? store_get_chunk(st, id, buf, max) : ((struct store *)t)->get_chunk((struct store *)t, id, buf, max);
			eio = vf_files[0].eio;
			bool must = false, may = false, fits = true;
			for (unsigned j = 0; j < 4; j++) {
				if (!rec[j].used) continue;
				uint8_t o[32];
				pick(o, rec[j].id);
				if (!vf_hash_eq(o, id)) continue;
				must |= rec[j].must;
				if (range[j].len > max) fits = false;
				bool eq = ret == (ssize_t)range[j].len;
				for (unsigned i = 0; i < range[j].len; i++)
					eq = eq && buf[i] == file[range[j].off + i];
				may |= eq && range[j].len <= max;
			}
			if (ret > 0) {
				VF_CHECK(queryable, "not asked to be a store: nothing is found");
				VF_CHECK(may, "the data of a range written or confirmed under this id is returned");
				VF_CHECK(!eio, "no data after a failure");
				VF_REACH("found");
			} else if (ret == 0) {
				VF_CHECK(!must, "what has been written or confirmed is found");
				VF_REACH("not found");
			} else {
				VF_CHECK(must && (eio || !fits), "failure only if the range cannot be read or does not fit");
			}
		}
		for (int i = 0; i < 8; i++)
			VF_CHECK(file[i] == shadow[i], "nothing else is written");
	}
	VF_REACH("done");
}
