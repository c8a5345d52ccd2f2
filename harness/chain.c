/* store.c: a chain of stores over every sequence of answers */
#include "vf.h"
#include "utils.h"
#include "store.h"
#define VF_WANT_FMT
#define VF_HEX_OPAQUE
#define VF_OWN_LOG
#include "vf_env.c"

ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; return 0; }
struct fake { struct store s; unsigned answers, freed; bool dead; };
static struct fake fk[N_STORES + 1];
static uint8_t cur_id[32], out[8];
static size_t cur_max;
static unsigned next_store;	/* the first store that may be asked now */
static bool answered;
static ssize_t answer;
static uint8_t answer_byte;

/* the statistics, if they are logged in a form that is recognised */
static bool freeing;
void _u_log(enum u_loglevel level, const char *path, const char *func, int line, const char *format, ...)
{
	(void)level; (void)path; (void)func; (void)line;
	if (!freeing)
		return;
	while (*format == ' ')
		format++;
	if (!vf_streq(format, "%u answered by store %s"))
		return;
	va_list ap;
	va_start(ap, format);
	unsigned count = va_arg(ap, unsigned);
	const char *name = va_arg(ap, const char *);
	va_end(ap);
	for (unsigned k = 0; k < N_STORES; k++)
		if (name == fk[k].s.name) {
			VF_CHECK(count == fk[k].answers, "the statistics count the answers of each store");
			VF_REACH("statistics");
		}
}
bool check_loglevel(enum u_loglevel level) { (void)level; return true; }
void u_log_init(void) {}

static ssize_t fake_get(struct store *s, uint8_t *id, uint8_t *o, size_t max)
{
	unsigned k = 0;
	while (k < N_STORES && &fk[k].s != s) k++;
	VF_CHECK(k < N_STORES, "the store handed over is asked");
	VF_CHECK(!answered, "no store is asked after an answer");
	VF_CHECK(!fk[k].dead, "a store that failed is not asked again");
	VF_CHECK(k >= next_store, "stores are asked in order, once each");
	for (unsigned j = next_store; j < k; j++)
		VF_CHECK(fk[j].dead, "no working store is left out");
	next_store = k + 1;
	VF_CHECK(o == out && max == cur_max, "the buffer is passed on");
	for (int i = 0; i < 32; i++) VF_CHECK(id[i] == cur_id[i], "the id is passed on");
	ssize_t r = (ssize_t)vf_nd64();
	VF_ASSUME(r <= (ssize_t)max);
	if (r < 0)
		fk[k].dead = true;
	if (r > 0) {
		answered = true;
		fk[k].answers++;
		answer = r;
		answer_byte = vf_nd8();
		o[0] = answer_byte;
	}
	return r;
}
static void fake_free(struct store *s)
{
	unsigned k = 0;
	while (k < N_STORES && &fk[k].s != s) k++;
	VF_CHECK(k < N_STORES, "the store handed over is freed");
	fk[k].freed++;
}

void harness(void)
{
	for (int i = 0; i < N_STORES; i++) {
		fk[i].s.get_chunk = fake_get;
		fk[i].s.free = (NOFREE >> i & 1) ? NULL : fake_free;
		fk[i].s.name[0] = 'x';
	}
	struct store_chain *sc = store_chain_new(HINT);
	VF_CHECK(sc != NULL, "a chain can be created with any size hint");
	unsigned n = 0;
#ifdef APPEND_ONLY	/* decides memory safety of appending before anything depends on what is in the chain */
	while (n < N_STORES)
		VF_CHECK(store_chain_append(sc, &fk[n++].s) == 0, "a store can be appended");
	VF_REACH("appended");
	return;
#endif
	for (unsigned q = 0; q < QUERIES; q++) {
		while (n < N_STORES && (q > 0 || n < FIRST))
			VF_CHECK(store_chain_append(sc, &fk[n++].s) == 0, "a store can be appended");
		struct store *s = store_chain_to_store(sc);
		for (int i = 0; i < 32; i++) cur_id[i] = vf_nd8();
		cur_max = (size_t)vf_range(1, sizeof(out));
		uint8_t id[32];
		memcpy(id, cur_id, 32);
		next_store = 0; answered = false;
		out[0] = 0xee;
		ssize_t r = store_get_chunk(s, id, out, cur_max);
		if (answered) {
			VF_CHECK(r == answer && out[0] == answer_byte, "the answer is passed on");
			VF_REACH("answered");
		} else {
			VF_CHECK(r == 0, "no store has it: not found");
			for (unsigned j = next_store; j < n; j++)
				VF_CHECK(fk[j].dead, "every working store has been asked");
			VF_REACH("not found");
		}
	}
	freeing = true;
	store_free(store_chain_to_store(sc));
	for (unsigned i = 0; i < N_STORES; i++)
		VF_CHECK(fk[i].freed == (i < n && !(NOFREE >> i & 1)), "every store is freed once");
	VF_REACH("freed");
}
