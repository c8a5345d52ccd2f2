/* Environment stand-ins. #include'd by a harness after it has #defined what it
 * wants; everything here is an over-approximation of the documented contract of
 * the replaced call unless a comment says otherwise.
 *
 *   VF_WANT_FS     byte-exact files (small)
 *   VF_WANT_FMT    sprintf/snprintf interpreter (otherwise: no-op formatting)
 *   VF_WANT_HASH   collision-free SHA-256 stand-in for inputs <= 31 bytes
 *   VF_WANT_SORT   qsort/bsearch
 */
#include "vf.h"
#include "log.h"

/* ------------------------------------------------------------------ misc */
#ifndef VF_OWN_ABORT
void vf_abort(void)
{
	VF_CHECK(0, "the program aborted (assertion failure)");
	vf_stop();
}
#endif
#ifndef VF_OWN_EXIT
void vf_exit(int code)
{
	(void)code;
	VF_CHECK(0, "unexpected exit()");
	vf_stop();
}
#endif
#ifndef VF_OWN_LOG
void _u_log(enum u_loglevel level, const char *path, const char *func, int line, const char *format, ...)
{
	(void)level; (void)path; (void)func; (void)line; (void)format;
}
bool check_loglevel(enum u_loglevel level) { (void)level; return false; }
void u_log_init(void) {}
#endif
char *vf_strerror(int e) { (void)e; return (char *)"error"; }
#ifndef VF_OWN_STDIO
int vf_printf(const char *f, ...) { (void)f; return 0; }
int vf_fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
int vf_putchar(int c) { return c; }
int vf_puts(const char *s) { (void)s; return 0; }
int vf_fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; }
int vf_fflush(FILE *f) { (void)f; return 0; }
#endif
int vf_usleep_calls;
#ifndef VF_OWN_SLEEP
int vf_usleep(useconds_t us) { (void)us; vf_usleep_calls++; return 0; }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; vf_usleep_calls++; return 0; }
unsigned vf_sleep(unsigned s) { (void)s; vf_usleep_calls++; return 0; }
#endif
int vf_clock_gettime(clockid_t c, struct timespec *ts)
{
	(void)c;
	ts->tv_sec = 0; ts->tv_nsec = 0;
	return 0;
}
int vf_isatty(int fd) { (void)fd; return 0; }

static bool vf_streq(const char *a, const char *b)
{
	for (size_t i = 0; i < 4096; i++) {
		if (a[i] != b[i])
			return false;
		if (!a[i])
			return true;
	}
	return false;
}

/* ------------------------------------------------------------- formatting */
#ifdef VF_WANT_FMT
struct vf_fmt_out { char *buf; size_t cap, n; };
static void vf_fmt_putc(struct vf_fmt_out *o, char c)
{
	if (o->n < o->cap)
		o->buf[o->n] = c;
	o->n++;
}
static void vf_fmt_hex(struct vf_fmt_out *o, unsigned long long v, int width, bool upper)
{
	/* up to 16 digits; leading zeros beyond the width are dropped */
	bool started = false;
	for (int d = 15; d >= 0; d--) {
		unsigned nib = (unsigned)((v >> (4 * d)) & 15);
		if (d < width || nib || started || d == 0) {
			started = true;
			vf_fmt_putc(o, (char)(nib < 10 ? '0' + nib : (upper ? 'A' : 'a') + (nib - 10)));
		}
	}
}
static void vf_fmt_dec(struct vf_fmt_out *o, unsigned long long v)
{
	char tmp[20];
	int n = 0;
	do { tmp[n++] = (char)('0' + v % 10); v /= 10; } while (v && n < 20);
	while (n > 0)
		vf_fmt_putc(o, tmp[--n]);
}
static int vf_vfmt(struct vf_fmt_out *o, const char *f, va_list ap)
{
#ifdef VF_HEX_OPAQUE
	/* ids are only printed for the log here: keep the length, drop the digits */
	if (f[0] == '%' && f[1] == '0' && f[2] == '2' && f[3] == 'x' && !f[4]) {
		vf_fmt_putc(o, 'x');
		vf_fmt_putc(o, 'x');
		return (int)o->n;
	}
#endif
	for (size_t i = 0; f[i]; i++) {
		if (f[i] != '%') { vf_fmt_putc(o, f[i]); continue; }
		i++;
		if (f[i] == '%') { vf_fmt_putc(o, '%'); continue; }
		int width = 0, lng = 0;
		bool zero = false;
		if (f[i] == '0') { zero = true; i++; }
		while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
		while (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') { lng = 1; i++; }
		if (f[i] == 'h') { i++; if (f[i] == 'h') i++; }
		(void)zero;
		if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (size_t k = 0; s[k]; k++)
				vf_fmt_putc(o, s[k]);
		} else if (f[i] == 'c') {
			vf_fmt_putc(o, (char)va_arg(ap, int));
		} else if (f[i] == 'x' || f[i] == 'X') {
#ifdef VF_CBMC
			/* CBMC does not promote variable arguments */
			if (width == 2 && zero && !lng) {
				unsigned char c = va_arg(ap, unsigned char);
				unsigned hi = c >> 4, lo = c & 15;
				char ten = f[i] == 'X' ? 'A' : 'a';
				vf_fmt_putc(o, (char)(hi < 10 ? '0' + hi : ten + (hi - 10)));
				vf_fmt_putc(o, (char)(lo < 10 ? '0' + lo : ten + (lo - 10)));
				continue;
			}
#endif
			unsigned long long v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
			/* two-digit byte output is the only symbolic use: keeping
			 * the number of digits concrete keeps the encoding small */
			if (width == 2 && zero && !lng) {
				VF_CHECK(v < 256, "two-digit hexadecimal output of a byte");
				VF_ASSUME(v < 256);
				unsigned hi = (unsigned)(v >> 4), lo = (unsigned)(v & 15);
				char ten = f[i] == 'X' ? 'A' : 'a';
				vf_fmt_putc(o, (char)(hi < 10 ? '0' + hi : ten + (hi - 10)));
				vf_fmt_putc(o, (char)(lo < 10 ? '0' + lo : ten + (lo - 10)));
			} else {
				vf_fmt_hex(o, v, width, f[i] == 'X');
			}
		} else if (f[i] == 'd' || f[i] == 'i') {
			long long v = lng ? va_arg(ap, long) : va_arg(ap, int);
			if (v < 0) { vf_fmt_putc(o, '-'); v = -v; }
			vf_fmt_dec(o, (unsigned long long)v);
		} else if (f[i] == 'u') {
			unsigned long long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			vf_fmt_dec(o, v);
		} else {
			VF_CHECK(0, "harness: format conversion not modelled");
		}
	}
	return (int)o->n;
}
int vf_sprintf(char *out, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	struct vf_fmt_out o = { out, (size_t)1 << 40, 0 };
	int r = vf_vfmt(&o, f, ap);
	va_end(ap);
	out[r] = 0;
	return r;
}
int vf_snprintf(char *out, size_t cap, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	struct vf_fmt_out o = { out, cap ? cap - 1 : 0, 0 };
	int r = vf_vfmt(&o, f, ap);
	va_end(ap);
	if (cap)
		out[(size_t)r < cap - 1 ? (size_t)r : cap - 1] = 0;
	return r;
}
#elif !defined(VF_OWN_FMT)
int vf_sprintf(char *out, const char *f, ...) { (void)f; out[0] = 0; return 0; }
int vf_snprintf(char *out, size_t cap, const char *f, ...) { (void)f; if (cap) out[0] = 0; return 0; }
#endif

/* ------------------------------------------------------------------- sort */
#ifdef VF_WANT_SORT
void vf_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	uint8_t *b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0; j--) {
			if (cmp(b + (j - 1) * sz, b + j * sz) <= 0)
				break;
			VF_SORT_SWAP(b + (j - 1) * sz, b + j * sz, sz);
		}
}
void *vf_bsearch(const void *key, const void *base, size_t n, size_t sz,
                 int (*cmp)(const void *, const void *))
{
	/* The contract of bsearch: on an array that is sorted with respect to the
	 * key, some matching element. Scans with constant offsets (a binary search
	 * would access the array at symbolic ones). */
	const uint8_t *b = base;
	void *hit = NULL;
	bool above = false;
	for (size_t i = 0; i < n; i++) {
		int c = cmp(key, b + i * sz);
		VF_CHECK(!above || c < 0, "the array is sorted");
		VF_CHECK(!hit || c <= 0, "the array is sorted");
		if (c < 0)
			above = true;
		else if (c == 0 && !hit)
			hit = (void *)(uintptr_t)(b + i * sz);
	}
	return hit;
}
#endif

/* ------------------------------------------------------------------- hash */
#ifdef VF_WANT_HASH
/* Collision-free stand-in for SHA-256 on inputs of at most 31 bytes: length and
 * data bytes are placed (injectively) into the 32 digest bytes, spread so that
 * inputs that differ in one byte give digests that differ in one byte only,
 * first and last digest positions included. Longer inputs: arbitrary digest
 * whose length byte says ">31", so it never equals a digest of a short one. */
static const uint8_t vf_hash_pos[32] = {
	8, 0, 31, 15, 16, 7, 24, 1, 30, 23, 9, 2, 29, 14, 17, 3, 28, 13, 18,
	4, 27, 12, 19, 5, 26, 11, 20, 6, 25, 10, 21, 22
};
static void vf_hash(const uint8_t *data, size_t len, uint8_t *out)
{
	for (int i = 0; i < 32; i++)
		out[i] = 0;
	if (len > 31) {
		out[8] = 255;
		out[0] = vf_nd8();
		return;
	}
	out[8] = (uint8_t)len;
	for (size_t i = 0; i < len && i < VF_HASH_MAX; i++)
		out[vf_hash_pos[i + 1]] = data[i];
}
static bool vf_hash_eq(const uint8_t *a, const uint8_t *b)
{
	bool eq = true;
	for (int i = 0; i < 32; i++)
		eq &= (a[i] == b[i]);
	return eq;
}
#ifndef VF_OWN_SHA256
unsigned char *vf_SHA256(const unsigned char *d, size_t n, unsigned char *md)
{
	static unsigned char md_static[32];
	if (!md)
		md = md_static;
	vf_hash(d, n, md);
	return md;
}
#endif
#endif
