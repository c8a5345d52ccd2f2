/* Core of the harness runtime (symbolic and native). */
#include "vf.h"

uint64_t vf_nd_log;
int vf_errno;

#ifdef VF_CBMC
uint64_t vf_nd64(void)
{
	uint64_t v = nondet_vf_u64();
	vf_nd_log = v;
	return v;
}
void vf_stop(void) { __CPROVER_assume(0); while (1); }
#ifdef VF_LOOP_MEM
void *vf_memcpy(void *d, const void *s, size_t n)
{
	uint8_t *a = d;
	const uint8_t *b = s;
	if (n) {
		VF_CHECK(__CPROVER_r_ok(s, n), "memcpy: source in bounds");
		VF_CHECK(__CPROVER_w_ok(d, n), "memcpy: destination in bounds");
	}
	for (size_t i = 0; i < n; i++)
		a[i] = b[i];
	return d;
}
void *vf_memmove(void *d, const void *s, size_t n)
{
	uint8_t *a = d, tmp[VF_LOOP_MEM];
	const uint8_t *b = s;
	if (n) {
		VF_CHECK(__CPROVER_r_ok(s, n), "memmove: source in bounds");
		VF_CHECK(__CPROVER_w_ok(d, n), "memmove: destination in bounds");
	}
	VF_CHECK(n <= VF_LOOP_MEM, "harness: copy longer than the model");
	VF_ASSUME(n <= VF_LOOP_MEM);
	for (size_t i = 0; i < VF_LOOP_MEM; i++)
		if (i < n) tmp[i] = b[i];
	for (size_t i = 0; i < VF_LOOP_MEM; i++)
		if (i < n) a[i] = tmp[i];
	return d;
}
#endif
void *vf_realloc(void *old, size_t n)
{
	void *p = malloc(n);
	if (!old)
		return p;
	size_t have = __CPROVER_OBJECT_SIZE(old);
	if (have > n)
		have = n;
#ifdef VF_LOOP_MEM
	for (size_t i = 0; i < have; i++)
		((uint8_t *)p)[i] = ((uint8_t *)old)[i];
#else
	memcpy(p, old, have);
#endif
	free(old);
	return p;
}
#else
#undef exit
#undef fprintf
#undef getenv
#undef printf
#undef fflush
static FILE *vf_replay;
uint64_t vf_nd64(void)
{
	uint64_t v = 0;
	if (!vf_replay) {
		const char *p = getenv("VF_REPLAY");
		vf_replay = fopen(p ? p : "/dev/null", "r");
	}
	if (!vf_replay || fscanf(vf_replay, "%" SCNu64, &v) != 1) {
		/* in padded replays the environment turns benign (0) */
		if (getenv("VF_PAD"))
			return vf_nd_log = 0;
		fprintf(stderr, "VF-ND-EXHAUSTED\n");
		_exit(78);
	}
	vf_nd_log = v;
	return v;
}
void vf_native_fail(const char *msg) { fprintf(stderr, "VF-VIOLATION: %s\n", msg); fflush(NULL); _exit(99); }
void vf_native_assume_failed(const char *expr) { fprintf(stderr, "VF-ASSUME-FAILED: %s\n", expr); fflush(NULL); _exit(77); }
void vf_native_reach(const char *label) { fprintf(stderr, "VF-REACH: %s\n", label); fflush(NULL); }
void vf_stop(void) { fprintf(stderr, "VF-STOP\n"); fflush(NULL); _exit(0); }
int main(void) { harness(); fprintf(stderr, "VF-END\n"); fflush(NULL); _exit(0); }
#endif

#ifdef VF_CBMC
/* plain C functions CBMC's library does not cover; the code does not use them
 * all today, an equivalent version of it may */
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
static bool vf_in(char c, const char *set) { for (size_t i = 0; set[i]; i++) if (set[i] == c) return true; return false; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && vf_in(s[i], a)) i++; return i; }
size_t strcspn(const char *s, const char *r) { size_t i = 0; while (s[i] && !vf_in(s[i], r)) i++; return i; }
char *strpbrk(const char *s, const char *r) { size_t i = strcspn(s, r); return s[i] ? (char *)s + i : NULL; }
void *memchr(const void *p, int c, size_t n)
{
	const unsigned char *s = p;
	for (size_t i = 0; i < n; i++)
		if (s[i] == (unsigned char)c) return (void *)(s + i);
	return NULL;
}
void *memrchr(const void *p, int c, size_t n)
{
	const unsigned char *s = p;
	while (n--)
		if (s[n] == (unsigned char)c) return (void *)(s + n);
	return NULL;
}
char *strchrnul(const char *s, int c) { size_t i = 0; while (s[i] && s[i] != (char)c) i++; return (char *)s + i; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
void *reallocarray(void *p, size_t n, size_t m)
{
	if (m && n > SIZE_MAX / m) { errno = ENOMEM; return NULL; }
	return realloc(p, n * m);
}
#endif
