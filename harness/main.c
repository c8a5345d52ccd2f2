/* main.c (whole program) with target.c and store.c: an extraction of an index
 * of a few entries onto a target with arbitrary content, from stores that answer
 * in any way.  caibx.c, index.c, store-local.c and store-http.c by the contracts
 * C12/C13, C17, C10/C11 and C05 decide for them.
 *   PLAN   {chunk, length}, ... entries of the index
 *   SIZES  lengths of the chunks
 *   ARGS   the command line
 *   CLAIM  the property whose assertions are active */
#include "vf.h"
#define VF_NFILES 2
#define VF_IOMAX 4
#define VF_WANT_HASH
#define VF_HASH_MAX 3
#define VF_ON_WRITE(f, off, buf, n) on_write(f, off, buf, n)
#define VF_ON_READ(f, off, n) do {} while (0)
static void on_write(int f, uint64_t off, const uint8_t *buf, uint64_t n);
#include "utils.h"
#include "caibx.h"
#include "index.h"
#include "target.h"
#include "store-local.h"
#include "store-http.h"
#define vf_isatty vf_isatty_unused
#include "vf_env.c"
#undef vf_isatty
#include "vf_fs.c"
#include "absindex.h"
#define P(n, c, m) do { if (CLAIM == (n)) VF_CHECK(c, m); } while (0)
#define R(n, l) do { if (CLAIM == (n)) VF_REACH(l); } while (0)
int vf_isatty(int fd) { (void)fd; return vf_ndb(); }
char *vf_getenv(const char *n) { (void)n; return NULL; }
#ifdef VF_CBMC
char *optarg;
int optind, opterr, optopt;
#endif
int vf_getopt_long(int c, char *const *v, const char *s, const struct option *o, int *l) { (void)c; (void)v; (void)s; (void)o; (void)l; VF_CHECK(0, "harness: no options"); return -1; }
char *vf_basename(char *p)
{
	char *b = p;
	for (unsigned i = 0; p[i]; i++)
		if (p[i] == '/') b = p + i + 1;
	return b;
}
void show_progress(uint8_t percent, uint32_t *status) { (void)status; P(1, percent <= 100, "the progress is a percentage"); }
void chunk_format_id(char *s, const uint8_t *id) { (void)id; s[0] = 0; }
int sha_kcapi_init(const char *d) { (void)d; return 0; }
/* SHA-256 of the bytes that matter */
int sha_once(const uint8_t *data, size_t len, uint8_t *out) { vf_hash(data, len, out); return 0; }

static const struct { unsigned chunk, len; } plan[] = { PLAN };
#define N (sizeof(plan) / sizeof(*plan))
static const unsigned sizes[] = { SIZES };
#define NC (sizeof(sizes) / sizeof(*sizes))
#ifndef MINSIZE
#define MINSIZE 1
#endif
#ifndef TSIZE
#define TSIZE 8
#endif
#define TCAP 8
static uint8_t content[NC][3], id[NC][32], tgt[TCAP];
static unsigned start[N], total;
static bool match[N];		/* found on the target at the beginning */
static unsigned writes[N], fetched[N];
static int cur = -1;		/* entry that is being handled */
static bool started, denied, all_found = true, iter_failed, read_failed_in_prefix;
static unsigned prefix;

static void on_write(int f, uint64_t off, const uint8_t *buf, uint64_t n)
{
	P(2, f == 1, "nothing but the target is written");
	P(2, started && cur >= 0, "nothing is written before the extraction starts");
	if (f != 1 || cur < 0)
		return;
	bool inside = false;
	for (unsigned i = 0; i < N; i++)
		if (off >= start[i] && off + n <= (uint64_t)start[i] + plan[i].len) {
			inside = true;
			writes[i]++;
			P(2, plan[i].len == sizes[plan[i].chunk], "no data of another length is written");
			for (unsigned k = 0; k < 3; k++)
				if (k < n)
					P(2, off - start[i] + k < 3 && buf[k] == content[plan[i].chunk][(off - start[i] + k) % 3], "only a range's own data is written");
			P(3, i >= prefix, "the intact prefix is not rewritten");
		}
	P(2, inside, "every write lies inside a range of the index");
}

/* ---- stores ---- */
static struct store stub[3];
static unsigned nstub;
#ifndef ANSWERS
#define ANSWERS "????????????????"
#endif
static unsigned answers;
static ssize_t stub_get(struct store *s, uint8_t *want, uint8_t *out, size_t max)
{
	(void)s;
	P(1, max >= 4, "there is room for a chunk");
	out[max - 1] = 0;
	if (cur >= 0) {
		P(1, vf_hash_eq(want, id[plan[cur].chunk]), "the chunk of the entry is asked for");
		P(3, (unsigned)cur >= prefix, "the intact prefix is not fetched");
		bool again = cur > 0 && (unsigned)cur > prefix && plan[cur].len == plan[cur - 1].len && vf_hash_eq(id[plan[cur].chunk], id[plan[cur - 1].chunk]);
		P(4, !again, "a chunk repeated immediately is not fetched again");
#ifdef TARGET_FIRST
		for (int j = 0; j < (int)N; j++)
			if (j < cur && !vf_files[1].eio)
				P(4, !vf_hash_eq(id[plan[cur].chunk], id[plan[j].chunk]), "a chunk the target holds is not fetched again");
#endif
		fetched[cur]++;
	}
	char a = answers < sizeof(ANSWERS) - 1 ? ANSWERS[answers] : 'f';
	answers++;
	bool found = a == 'f', fail = a == 'x';
	if (a == '?') {
		found = vf_ndb();
		fail = vf_ndb();
	}
	for (unsigned k = 0; k < 2; k++)	/* a failed attempt may leave anything behind */
		out[k] = vf_nd8();
	if (found)
		for (unsigned c = 0; c < NC; c++)
			if (vf_hash_eq(want, id[c])) {
				for (unsigned k = 0; k < sizes[c]; k++)
					out[k] = content[c][k];
				return (ssize_t)sizes[c];
			}
	all_found = false;
	return fail ? -(ssize_t)(1 + (a == '?' ? vf_range(0, 3) : 0)) : 0;
}
static struct store *stub_new(void)
{
	VF_CHECK(nstub < 3, "harness: too many stores");
	stub[nstub].get_chunk = stub_get;
	return &stub[nstub++];
}
struct store *store_local_new(const char *path, const char *index, struct chunker_params *p) { (void)path; (void)index; (void)p; return stub_new(); }
struct store *store_http_new(const char *url) { (void)url; return stub_new(); }

/* ---- index ---- */
int caibx_load_header(int fd, struct chunker_params *p, size_t *n)
{
	P(2, vf_fdidx(fd) >= 0 && vf_fds[vf_fdidx(fd)].file == 0, "the index is loaded");
	p->min_size = MINSIZE; p->avg_size = 2; p->max_size = 3;
	*n = N;
	return 0;
}
int caibx_iterate_entries(int fd, struct chunker_params *p, size_t n, int (*cb)(uint64_t, uint32_t, uint8_t *, void *), void *arg)
{
	P(1, vf_fdidx(fd) >= 0 && vf_fds[vf_fdidx(fd)].file == 0 && n == N && p->max_size == 3, "the index that was loaded is extracted");
	started = true;
	bool ok = true;
	for (unsigned i = 0; i < N; i++)
		if (ok) {
#ifdef ITER_FAILS
			if (vf_ndb()) { iter_failed = true; return -1; }
#endif
			cur = (int)i;
			uint8_t e[32];
			for (int k = 0; k < 32; k++) e[k] = id[plan[i].chunk][k];
			ok = cb(start[i], plan[i].len, e, arg) >= 0;
		}
	return ok ? 0 : -1;
}

int vf_repo_main(int argc, char **argv);
void harness(void)
{
	for (unsigned c = 0; c < NC; c++) {
		for (unsigned k = 0; k < sizes[c]; k++) content[c][k] = vf_nd8();
		vf_hash(content[c], sizes[c], id[c]);
	}
	for (unsigned i = 0; i < N; i++) {
		start[i] = total;
		total += plan[i].len;
	}
	for (unsigned i = 0; i < TCAP; i++) tgt[i] = vf_nd8();
	prefix = N;
	for (unsigned i = 0; i < N; i++) {
		match[i] = plan[i].len == sizes[plan[i].chunk] && start[i] + plan[i].len <= TSIZE;
		for (unsigned k = 0; k < plan[i].len && k < 3; k++)
			match[i] = match[i] && start[i] + k < TCAP && tgt[(start[i] + k) % TCAP] == content[plan[i].chunk][k];
		if (!match[i] && prefix == N)
			prefix = i;
	}
	vf_files[0].path = "i";
	vf_files[0].kind = VF_REG;
	vf_files[0].data = content[0];
	vf_files[0].reliable = true;
	vf_files[1].path = "t";
#ifdef NO_TARGET
	vf_files[1].kind = VF_ABSENT;
#else
	vf_files[1].kind = TBLK ? VF_BLK : VF_REG;
#endif
	vf_files[1].data = tgt;
	vf_files[1].size = TSIZE;
	vf_files[1].cap = TCAP;
	vf_budget_eio = FAULTS;
	static char *argv[] = { ARGS, NULL };
	int argc = (int)(sizeof(argv) / sizeof(*argv)) - 1;
	int ret = vf_repo_main(argc, argv);
	bool eio = vf_files[1].eio;
	P(2, vf_files[1].creats + vf_files[1].truncs + vf_files[1].unlinks + vf_files[0].creats + vf_files[0].truncs + vf_files[0].unlinks == 0, "no file is created, truncated or removed");
	P(2, vf_files[0].wopens == 0, "the index is opened read-only");
	P(2, vf_files[1].size == TSIZE || vf_files[1].writes, "the size of the target is left alone");
	bool fits = true, lens = true;
	for (unsigned i = 0; i < N; i++) {
		fits = fits && start[i] + plan[i].len <= (TBLK ? TSIZE : TCAP);
		lens = lens && plan[i].len == sizes[plan[i].chunk];
	}
#ifdef NO_TARGET
	P(2, ret != 0, "a target that does not exist is a failure");
	P(2, vf_files[1].kind == VF_ABSENT, "the target is not created");
	R(2, "failed");
#endif
	if (ret == 0) {
		P(1, !iter_failed, "an index that cannot be read is a failure");
		for (unsigned i = 0; i < N; i++) {
			P(1, plan[i].len == sizes[plan[i].chunk], "a chunk of another length is a failure");
			for (unsigned k = 0; k < plan[i].len && k < 3; k++)
				P(1, start[i] + k < TCAP && tgt[(start[i] + k) % TCAP] == content[plan[i].chunk][k], "every range holds the indexed data after success");
			if (!eio)
				P(3, writes[i] == (i >= prefix), "everything behind the intact prefix is written, once");
		}
		R(1, "extracted"); R(2, "extracted"); R(3, "extracted"); R(4, "extracted");
		if (prefix > 0 && prefix < N) R(3, "resumed");
	} else {
		P(1, (ret & 0xff) != 0, "a failure gives a failing exit status");
		P(1, !(all_found && !eio && fits && lens && !iter_failed), "an extraction for which everything is available succeeds");
		if (!eio && !iter_failed && all_found)
			P(3, !fits || !lens, "an interrupted extraction is completed by running it again");
		R(1, "failed");
	}
}
