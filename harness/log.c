/* log.c, C27.  LEVELS: LOGLEVEL is any string of up to 8 characters (or not
 * set).  Otherwise: the message FMT (filled with %c %d %s) is printed with any
 * characters, PATH/FUNC/LINE are its location, TTY says whether to use colours. */
#include "vf.h"
#include "utils.h"
#include "log.h"

#define SINK 398
static char sink[SINK + 2];
static unsigned nsink, calls;
static void put(char c)
{
	VF_CHECK(nsink < SINK, "harness: output fits");
	sink[nsink++] = c;
}
/* printf(3) for %s %c %d %i %u %%; an incomplete conversion is an error */
static char *dst;
static size_t room;
static int total;
static void emit(char c)
{
	if (!dst) put(c);
	else if ((size_t)total + 1 < room) dst[total] = c;
	total++;
}
static int vformat(const char *f, va_list ap)
{
	total = 0;
	for (unsigned i = 0; f[i]; i++) {
		if (f[i] != '%') { emit(f[i]); continue; }
		i++;
		if (f[i] == '%') emit('%');
		else if (f[i] == 'c') emit((char)va_arg(ap, int));
		else if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (unsigned k = 0; s[k]; k++) emit(s[k]);
		} else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u') {
			int v = va_arg(ap, int), n = 1;
			VF_CHECK(v >= 0, "harness: no negative numbers");
			for (int t = v; t > 9; t /= 10) n *= 10;
			for (; n; n /= 10) emit('0' + v / n % 10);
		} else {
			VF_CHECK(0, "the format consists of complete conversions");
			return -1;
		}
	}
	return total;
}
int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
	char none;
	dst = b ? b : &none;
	room = b ? n : 0;
	int r = vformat(f, ap);
	if (n) b[(size_t)total < n ? (size_t)total : n - 1] = 0;
	return r;
}
int vf_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vf_vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
#ifdef LEVELS
int vf_vfprintf(FILE *fp, const char *f, va_list ap) { (void)f; (void)ap; VF_CHECK(fp == stderr, "messages go to stderr"); calls++; return 1; }
#else
int vf_vfprintf(FILE *fp, const char *f, va_list ap)
{
	VF_CHECK(fp == stderr, "messages go to stderr");
	calls++;
	dst = NULL;
	return vformat(f, ap);
}
#endif
int vf_fprintf(FILE *fp, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vf_vfprintf(fp, f, ap);
	va_end(ap);
	return r;
}
int vf_fputs(const char *s, FILE *fp)
{
	VF_CHECK(fp == stderr, "messages go to stderr");
	calls++;
#ifndef LEVELS
	for (unsigned i = 0; s[i]; i++) put(s[i]);
#endif
	return 1;
}
int vf_fputc(int c, FILE *fp)
{
	VF_CHECK(fp == stderr, "messages go to stderr");
	calls++;
	put((char)c);
	return c;
}
int vf_fflush(FILE *fp) { (void)fp; return 0; }
int vf_isatty(int fd) { VF_CHECK(fd == 2, "colours depend on stderr"); return TTY; }

static char env[9];
static bool env_set;
char *vf_getenv(const char *n)
{
	static const char name[] = "LOGLEVEL";
	for (unsigned i = 0; i < sizeof(name); i++) VF_CHECK(n[i] == name[i], "LOGLEVEL selects the level");
	return env_set ? env : NULL;
}
static bool is(const char *a)
{
	for (unsigned i = 0; i < 9; i++) {
		if (env[i] != a[i]) return false;
		if (!a[i]) return true;
	}
	return false;
}
void harness(void)
{
#ifdef LEVELS
	env_set = vf_nd8() & 1;
	for (unsigned i = 0; i < 8; i++) env[i] = (char)vf_nd8();
	int want = U_LOG_INFO;
	bool known = true;
	if (env_set) {
		if (is("debug")) want = U_LOG_DEBUG;
		else if (is("info")) want = U_LOG_INFO;
		else if (is("warn") || is("warning")) want = U_LOG_WARN;
		else if (is("err") || is("error")) want = U_LOG_ERR;
		else known = false;
	}
	u_log_init();
	VF_CHECK(!known || calls == 0, "a known level is accepted silently");
	VF_CHECK(known || calls > 0, "an unknown level is reported");
	for (int l = U_LOG_ERR; l <= U_LOG_DEBUG; l++) {
		VF_CHECK(check_loglevel(l) == (l <= want), "exactly the levels up to the selected one are enabled");
		unsigned before = calls;
		_u_log(l, "a", "b", 1, "c");
		VF_CHECK((calls > before) == (l <= want), "messages are printed if and only if their level is enabled");
	}
	VF_REACH("levels");
#else
	static const char *const e[] = { "err", "warn", "info", "debug" };
	env_set = true;
	for (unsigned i = 0; e[LOGLEVEL][i]; i++) env[i] = e[LOGLEVEL][i];
	u_log_init();
	char c[3];
	for (int i = 0; i < 3; i++) { c[i] = (char)vf_nd8(); VF_ASSUME(c[i] != 0); }
	VF_CHECK(!calls, "nothing is printed yet");
	_u_log(LEVEL, PATH, FUNC, LINE, FMT, (int)c[0], "%s%", 4711, (int)c[1], (int)c[2]);
	if (LEVEL > LOGLEVEL) {
		VF_CHECK(!calls && !nsink, "messages of disabled levels are not printed");
		VF_REACH("silent");
		return;
	}
	static const char want[] = WANT;
	unsigned k = 0;
	for (unsigned i = 0; i < sizeof(want) - 1; i++) {
		char w = want[i];
		if (w == '\1') w = c[k++];
		VF_CHECK(i < nsink && sink[i] == w, "the message is printed completely, with level and location, as one line");
	}
	VF_CHECK(nsink == sizeof(want) - 1, "nothing else is printed");
	VF_REACH("printed");
#endif
}
