/* The chunk map by the contract that C17 decides for index.c: a multimap; a
 * lookup yields one of the entries inserted under the id, if there are any.
 * One map at a time. */
#ifndef AI_MAX
#define AI_MAX 6
#endif
static struct index_entry ai_entry[AI_MAX];
static unsigned ai_n;
static struct index *ai_owner;
static unsigned ai_inits;

int index_init(struct index *idx, size_t expected)
{
	(void)expected;
	ai_owner = idx;
	ai_n = 0;
	ai_inits++;
	idx->n_entries = 0;
	return 0;
}
void index_cleanup(struct index *idx)
{
	if (ai_owner == idx)
		ai_owner = NULL;
	idx->n_entries = 0;
}
struct index_entry *index_insert(struct index *idx, uint64_t start, uint32_t len, const uint8_t *id)
{
	VF_CHECK(ai_owner == idx, "only an initialised index is inserted to");
	VF_CHECK(ai_n < AI_MAX, "harness: too many index entries");
	struct index_entry *e = NULL;
	for (unsigned k = 0; k < AI_MAX; k++)
		if (k == ai_n) {
			e = &ai_entry[k];
			e->start = start;
			e->len = len;
			e->flags = 0;
			for (int i = 0; i < 32; i++)
				e->id[i] = id[i];
		}
	ai_n++;
	idx->n_entries = ai_n;
	return e;
}
struct index_entry *index_query(struct index *idx, const uint8_t *id)
{
	if (ai_owner != idx)
		return NULL;
	struct index_entry *e = NULL;
	bool last = vf_ndb();
	for (unsigned k = 0; k < AI_MAX; k++) {
		bool eq = k < ai_n;
		for (int i = 0; i < 32; i++)
			eq = eq && ai_entry[k].id[i] == id[i];
		if (eq && (!e || last))
			e = &ai_entry[k];
	}
	return e;
}
