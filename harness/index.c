/* index.c: a multimap from chunk ids to ranges, for any history of operations */
#include "vf.h"
#define VF_WANT_SORT
#include "utils.h"
#include "index.h"
static void swap_entries(struct index_entry *a, struct index_entry *b)
{
	uint64_t s = a->start; a->start = b->start; b->start = s;
	uint32_t t = a->len; a->len = b->len; b->len = t;
	t = a->flags; a->flags = b->flags; b->flags = t;
	for (int i = 0; i < 32; i++) { uint8_t c = a->id[i]; a->id[i] = b->id[i]; b->id[i] = c; }
}
#define VF_SORT_SWAP(a, b, sz) swap_entries((struct index_entry *)(a), (struct index_entry *)(b))
#include "vf_env.c"

ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; return 0; }
#ifndef OPS
#define OPS 5
#endif
static uint8_t pool[3][32];
static uint8_t g_id[OPS];
static uint64_t g_off[OPS];
static uint32_t g_len[OPS];
static bool g_flag[OPS];
static unsigned n;

static bool same(const uint8_t *a, const uint8_t *b)
{
	bool eq = true;
	for (int i = 0; i < 32; i++) eq &= a[i] == b[i];
	return eq;
}

void harness(void)
{
	for (int p = 0; p < 3; p++)
		for (int i = 0; i < 32; i++)
#ifdef FEW_BYTES
			pool[p][i] = (i == 0 && FEW_BYTES > 2) || i == 31 || (i == 15 && FEW_BYTES > 1) ? vf_nd8() : 7;
#else
			pool[p][i] = vf_nd8();
#endif
	struct index idx;
	VF_CHECK(index_init(&idx, SIZE) == 0, "an index can be created with any expected size");
	bool queried = false, grown = false, miss = false;
	for (unsigned k = 0; k < OPS; k++) {
		unsigned s = (unsigned)vf_range(0, 2);
		uint8_t id[32];
		for (int i = 0; i < 32; i++)
			id[i] = s == 0 ? pool[0][i] : s == 1 ? pool[1][i] : pool[2][i];
#ifdef INSERT_FIRST
		bool ins = k < INSERT_FIRST || (INSERT_AT >> k & 1);
#else
		bool ins = INSERT_AT >> k & 1;
#endif
		if (ins) {
			uint64_t off = vf_nd64();
			uint32_t len = vf_nd32();
			VF_ASSUME(len != 0);
			struct index_entry *e = index_insert(&idx, off, len, id);
			VF_CHECK(e != NULL, "inserting succeeds");
			VF_CHECK(e->start == off && e->len == len && same(e->id, id), "the new entry has the given values");
			VF_CHECK(e->flags == 0, "a new entry has no flags");
			if (vf_ndb()) { e->flags |= 1; g_flag[n] = true; }
			g_id[n] = (uint8_t)s; g_off[n] = off; g_len[n] = len;
			n++;
			if (n > SIZE + 1) grown = true;
		} else {
			queried = true;
			struct index_entry *e = index_query(&idx, id);
			bool found = false, match = false;
			for (unsigned j = 0; j < n; j++) {
				const uint8_t *gid = pool[g_id[j]];
				if (same(gid, id)) {
					found = true;
					if (e && e->start == g_off[j] && e->len == g_len[j] && (e->flags == 1) == g_flag[j])
						match = true;
				}
			}
			VF_CHECK((e != NULL) == found, "a query finds exactly the ids that have been inserted");
			if (e) {
				VF_CHECK(same(e->id, id), "a query returns an entry with the id asked for");
				VF_CHECK(match, "a query returns an entry as it has been inserted");
			} else {
				miss = true;
			}
		}
	}
	VF_CHECK(idx.n_entries == n, "entries are counted");
	if (queried && miss) VF_REACH("query without result");
	if (n) VF_REACH("inserted");
	(void)grown;
	index_cleanup(&idx);
	VF_CHECK(index_query(&idx, pool[0]) == NULL, "nothing is found in a cleaned up index");
	VF_CHECK(index_init(&idx, SIZE) == 0, "the index can be used again");
	VF_CHECK(index_query(&idx, pool[0]) == NULL, "a new index is empty");
	struct index_entry *e = index_insert(&idx, 1, 2, pool[1]);
	VF_CHECK(e && index_query(&idx, pool[1]) != NULL, "the index works after being set up again");
	index_cleanup(&idx);
	index_cleanup(&idx);
}
