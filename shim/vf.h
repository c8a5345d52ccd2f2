/* Harness vocabulary, shared by the symbolic run (CBMC) and the native replay. */
#ifndef VF_H
#define VF_H

extern uint64_t vf_nd_log;

#ifdef VF_CBMC
uint64_t nondet_vf_u64(void);
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_CHECK(c, msg) __CPROVER_assert((c), "vf: " msg)
#define VF_REACH(label) __CPROVER_assert(0, "reach: " label)
#else
void vf_native_fail(const char *msg) __attribute__((noreturn));
void vf_native_assume_failed(const char *expr) __attribute__((noreturn));
void vf_native_reach(const char *label);
#define VF_ASSUME(c) do { if (!(c)) vf_native_assume_failed(#c); } while (0)
#define VF_CHECK(c, msg) do { if (!(c)) vf_native_fail(msg); } while (0)
#define VF_REACH(label) vf_native_reach(label)
#endif

/* nondeterministic values: symbolic under CBMC, read back from the
 * counterexample in the native replay */
uint64_t vf_nd64(void);
static inline uint8_t vf_nd8(void) { return (uint8_t)vf_nd64(); }
static inline uint32_t vf_nd32(void) { return (uint32_t)vf_nd64(); }
static inline bool vf_ndb(void) { return vf_nd64() & 1; }
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vf_nd64();
	VF_ASSUME(v >= lo && v <= hi);
	return v;
}

void vf_stop(void) __attribute__((noreturn));	/* end this path silently */
void harness(void);

#endif
