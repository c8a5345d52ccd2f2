/* main.c (whole program), C26: how command lines are interpreted.  '?' in an
 * argument is any character.  The stores, the target and the index are stubs
 * that record how they were set up; any one of the calls may fail.
 *   ARGS     command line              STORES {argument, offset} of every store, in order
 *   FAIL_AT  which of the calls fails (0: none)
 *   INDEX/TARGET  which arguments      EXPECT OK, BAD or HELP
 *   WORD     argument that has to be "extract" (0: none)
 *   APP      whether argv[0] is right: computed for a symbolic one */
#include "vf.h"
#define VF_NFILES 1
#define VF_OWN_EXIT
#include "utils.h"
#include "caibx.h"
#include "index.h"
#include "target.h"
#include "store-local.h"
#include "store-http.h"
#include "vf_env.c"
enum { BAD, OK, HELP };
#ifndef WORD
#define WORD 0
#endif
#ifndef APPLEN
#define APPLEN 0
#endif
static unsigned fallible, fail_at;
static bool failed;
static bool fails(void)
{
	if (++fallible == fail_at) { failed = true; errno = EIO; return true; }
	return false;
}
/* every argument is an array of its own (a0, a1, ...; o0, o1, ... are copies
 * to compare with), so that stepping out of one is noticed */
DECLS
static char *const init[] = { ARGS };
static char *const orig[] = { ORIGS };
static const unsigned lens[] = { LENS };
#define ARGC ((int)(sizeof(init) / sizeof(*init)))
static char *argv[ARGC + 1];
static const struct { int arg, off; } stores[] = { STORES { 0, 0 } };
#define NSTORES ((unsigned)(sizeof(stores) / sizeof(*stores)) - 1)
/* does an argument look like an option?  (what is unknown does not, see below) */
static const bool dashed[] = { DASHED };
static bool is_dashed(const char *a)
{
	for (int i = 0; i < ARGC; i++)
		if (a == init[i]) return dashed[i];
	VF_CHECK(0, "harness: arguments are only permuted");
	return false;
}

#ifdef VF_CBMC
char *optarg;
int optind, opterr, optopt;
#endif
/* getopt_long(3): GNU permutation, short options without argument, long options
 * (exact names and unambiguous abbreviations) with separate or attached argument */
static int g_first, g_next = 1;		/* arguments [g_first, g_next) are non-options that were skipped */
static bool g_init;
static void rotate(char *const *cv, int from, int mid, int to)
{
	/* [from,mid) non-options, [mid,to) what belongs to the option */
	char **v = (char **)cv;
	for (int k = 0; k < to - mid; k++) {
		char *x = v[mid + k];
		for (int i = mid + k; i > from + k; i--) v[i] = v[i - 1];
		v[from + k] = x;
	}
}
int vf_getopt_long(int c, char *const *v, const char *s, const struct option *o, int *l)
{
	if (!g_init) { g_init = true; g_first = g_next = 1; optind = 1; }
	optarg = NULL;
	while (g_next < c && !is_dashed(v[g_next])) g_next++;
	if (g_next >= c) { optind = g_first; return -1; }
	char *a = v[g_next];
	int used = 1, ret = '?';
	if (a[1] == '-' && !a[2]) {
		rotate(v, g_first, g_next, g_next + 1);
		optind = g_first + 1;
		g_next = c;
		g_first = optind;
		return -1;
	}
	if (a[1] == '-') {
		int n = 0, found = -1, hits = 0;
		while (a[2 + n] && a[2 + n] != '=') n++;
		for (int i = 0; o[i].name; i++) {
			bool pre = true;
			int k = 0;
			for (; k < n && pre; k++)
				if (o[i].name[k] != a[2 + k]) pre = false;
			if (!pre) continue;
			if (!o[i].name[n]) { found = i; hits = 1; break; }
			found = i;
			hits++;
		}
		if (hits == 1) {
			ret = o[found].val;
			if (o[found].has_arg == required_argument) {
				if (a[2 + n] == '=') optarg = &a[3 + n];
				else if (g_next + 1 < c) { optarg = v[g_next + 1]; used = 2; }
				else ret = '?';
			} else if (a[2 + n] == '=')
				ret = '?';
			if (l && ret != '?') *l = found;
		}
	} else {
		VF_CHECK(!a[2], "harness: grouped short options are not modelled");
		for (int i = 0; s[i]; i++)
			if (s[i] == a[1]) {
				ret = a[1];
				VF_CHECK(s[i + 1] != ':', "harness: short options have no argument");
			}
	}
	rotate(v, g_first, g_next, g_next + used);
	g_first += used;
	g_next += used;
	optind = g_first;
	return ret;
}
char *vf_basename(char *p)
{
	char *b = p;
	for (unsigned i = 0; p[i]; i++)
		if (p[i] == '/') b = p + i + 1;
	return b;
}
void show_progress(uint8_t percent, uint32_t *status) { (void)percent; (void)status; }
void chunk_format_id(char *s, const uint8_t *id) { (void)id; s[0] = 0; }

static bool env_set, kcapi;
char *vf_getenv(const char *n)
{
	static char drv[] = "drv";
	return vf_streq(n, "CSN_KCAPI_DRIVER") && env_set ? drv : NULL;
}
int sha_kcapi_init(const char *d)
{
	VF_CHECK(env_set && vf_streq(d, "drv"), "the driver of the environment is used");
	if (fails()) return -1;
	kcapi = true;
	return 0;
}
void sha_kcapi_deinit(void) {}
int sha_once(const uint8_t *d, size_t n, uint8_t *o) { (void)d; (void)n; (void)o; return -1; }

static bool index_open, header, iterated, chained, asked, written;
static unsigned nappended;
int vf_open(const char *path, int flags, ...)
{
	VF_CHECK(vf_streq(path, orig[INDEX]), "only the index is opened here");
	VF_CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "for reading");
	if (fails()) return -1;
	index_open = true;
	return 5;
}
int vf_close(int fd) { (void)fd; return 0; }
int caibx_load_header(int fd, struct chunker_params *p, size_t *n)
{
	VF_CHECK(fd == 5 && index_open, "the index is loaded");
	if (fails()) return -1;
	p->min_size = 16; p->avg_size = 64; p->max_size = 256;
	*n = 7;
	header = true;
	return 0;
}
static struct target tg;
static bool tg_made;
struct target *target_new(const char *path)
{
	VF_CHECK(vf_streq(path, orig[TARGET]), "the target is the argument for it");
	if (fails()) return NULL;
	tg_made = true;
	return &tg;
}
static struct store made[NSTORES + 2], chain;
static unsigned nmade;
static char kinds[NSTORES + 2];
/* what the n-th store has to be */
static char kind_of(unsigned n)
{
	const char *a = orig[stores[n].arg] + stores[n].off;
	if (vf_streq(a, orig[TARGET])) return 't';
	if (a[0] == 'h' && a[1] == 't' && a[2] == 't' && a[3] == 'p') return 'h';
	return 'l';
}
static struct store *store_made(char kind)
{
	VF_CHECK(nmade < NSTORES, "no store is set up that was not asked for");
	VF_CHECK(nmade >= NSTORES || kind_of(nmade) == kind, "each store is of the kind its argument says");
	if (fails()) return NULL;
	kinds[nmade] = kind;
	return &made[nmade++];
}
struct store *target_as_store(struct target *t, size_t n)
{
	VF_CHECK(t == &tg && tg_made && n == 7, "the target is used as a store");
	return store_made('t');
}
struct store *store_http_new(const char *url)
{
	struct store *s = nmade < NSTORES ? &made[nmade] : NULL;
	if (s) VF_CHECK(vf_streq(url, orig[stores[nmade].arg] + stores[nmade].off), "the URL is the argument");
	return store_made('h');
}
struct store *store_local_new(const char *path, const char *index, struct chunker_params *p)
{
	VF_CHECK(header && p->min_size == 16 && p->avg_size == 64 && p->max_size == 256, "seeds are scanned with the parameters of the index");
	if (nmade < NSTORES) {
		const char *a = orig[stores[nmade].arg] + stores[nmade].off;
		unsigned len = lens[stores[nmade].arg] - stores[nmade].off;
		bool seen = false;
		for (unsigned i = 0; i <= len; i++) {
			if (seen) continue;
			if (a[i] != ':') {
				VF_CHECK(path[i] == a[i], "the seed is the part before the first colon");
				continue;
			}
			seen = true;
			VF_CHECK(path[i] == 0, "the seed is the part before the first colon");
			VF_CHECK(index != NULL, "a side-loaded index follows the first colon");
			for (unsigned k = i + 1; index && k <= len; k++)
				VF_CHECK(index[k - i - 1] == a[k], "the side-loaded index is the part behind the first colon");
		}
		if (!seen) VF_CHECK(!index, "without a colon there is no side-loaded index");
	}
	return store_made('l');
}
static ssize_t chain_get(struct store *s, uint8_t *id, uint8_t *out, size_t max)
{
	(void)id; (void)max;
	VF_CHECK(s == &chain, "harness");
	asked = true;
	out[0] = 1;
	return 1;
}
struct store_chain *store_chain_new(size_t hint)
{
	VF_CHECK(hint <= 2 * NSTORES + 64, "the estimate is reasonable");
	if (fails()) return NULL;
	VF_CHECK(!chained, "one chain is created");
	chained = true;
	chain.get_chunk = chain_get;
	return (struct store_chain *)&chain;
}
int store_chain_append(struct store_chain *sc, struct store *s)
{
	VF_CHECK((struct store *)sc == &chain && chained, "stores are added to the chain");
	VF_CHECK(s == &made[nappended], "stores are added in the order of the arguments");
	if (fails()) return -1;
	nappended++;
	return 0;
}
int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t off, const uint8_t *id) { (void)t; (void)tmp; (void)len; (void)off; (void)id; return 0; }
int target_write(struct target *t, const uint8_t *d, size_t n, off_t off, const uint8_t *id)
{
	(void)d; (void)off; (void)id;
	VF_CHECK(t == &tg && n == 1 && iterated, "the target is written only once everything is set up");
	written = true;
	return 0;
}
int caibx_iterate_entries(int fd, struct chunker_params *p, size_t n, int (*cb)(uint64_t, uint32_t, uint8_t *, void *), void *arg)
{
	static uint8_t id[32];
	VF_CHECK(!failed, "nothing is extracted after a failure");
	VF_CHECK(EXPECT == OK, "nothing is extracted for an unusable command line");
	VF_CHECK(fd == 5 && header && n == 7 && p->max_size == 256, "the index that was loaded is extracted");
	VF_CHECK(tg_made && nmade == NSTORES && nappended == NSTORES, "every store has been set up");
	iterated = true;
	if (fails()) return -1;
	int r = cb(0, 1, id, arg);
	VF_CHECK(r >= 0 && asked && written, "the chain of all stores is asked");
	return r < 0 ? r : 0;
}

static bool done, word_ok = true, app_ok = true;
static void finish(int ret)
{
	VF_CHECK(!done, "the program ends once");
	done = true;
	if (EXPECT == OK && word_ok && app_ok && !failed) {
		VF_CHECK((ret & 0xff) == 0, "a usable command line succeeds");
		VF_CHECK(iterated, "success means that the index was extracted");
	} else if (EXPECT == HELP)
		VF_CHECK(!iterated, "asking for help does not extract");
	else {
		VF_CHECK((ret & 0xff) != 0, "misuse and failures give a failing exit status");
		VF_CHECK(word_ok && app_ok ? true : !iterated, "nothing is extracted for an unusable command line");
	}
	if (EXPECT == BAD || EXPECT == HELP) VF_CHECK(!written, "the target is not touched");
	if (ret == 0 && iterated) VF_REACH("extracted");
	else VF_REACH("refused");
}
void vf_exit(int code) { finish(code); vf_stop(); }

int vf_repo_main(int argc, char **argv);
void harness(void)
{
	for (int i = 0; i < ARGC; i++) {
		for (unsigned k = 0; k < lens[i]; k++)
			if (init[i][k] == '?') {
				char c = (char)vf_nd8();
				VF_ASSUME(c != 0);
				if (!k && i == WORD) VF_ASSUME(c != '-');
				init[i][k] = orig[i][k] = c;
			}
		argv[i] = init[i];
	}
	if (WORD) word_ok = vf_streq(orig[WORD], "extract");
#if APPLEN
	/* the last APPLEN characters of argv[0] are symbolic */
	const char *b = vf_basename(orig[0]);
	app_ok = vf_streq(b, "csn") || vf_streq(b, "casync");
	if (APPLEN == 3) VF_ASSUME(!vf_streq(b, "casync"));
	else VF_ASSUME(!vf_streq(b, "csn"));
#endif
	env_set = ENV;
	fail_at = FAIL_AT;
	finish(vf_repo_main(ARGC, argv));
	VF_CHECK(!FAIL_AT || failed, "harness: the failing call exists");
}
