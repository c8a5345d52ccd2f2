/* sha.c: hashing with the kernel backend under every schedule of its results */
#define VF_OWN_SHA256
#include "vf.h"
#define VF_WANT_HASH
#define VF_HASH_MAX MAXLEN
#include "vf_env.c"
#include "utils.h"
#include "sha.h"

enum { ALG = 20, OP = 21 };
static uint8_t kbuf[3 * MAXLEN + 1];
static unsigned klen, alg_open, op_open, n_socket, n_bind, n_accept;
static bool kfinal, setup_fault, no_short_left;
static int budget_short = SHORT, budget_eintr = EINTRS, budget_fail = FAILS, budget_lib = LIBFAILS;
static bool lib_failed, backend_failed;
static const char *driver;

static bool setup_fails(void)
{
	if (!setup_fault && SETUP_FAULT && vf_ndb()) { setup_fault = true; errno = ENOENT; return true; }
	return false;
}
int vf_socket(int d, int t, int p)
{
	(void)p;
	VF_CHECK(d == AF_ALG && t == SOCK_SEQPACKET, "an AF_ALG socket is created");
	if (setup_fails()) return -1;
	n_socket++; alg_open++;
	return ALG;
}
int vf_bind(int fd, const struct sockaddr *sa, socklen_t n)
{
	const struct sockaddr_alg *a = (const void *)sa;
	VF_CHECK(fd == ALG && alg_open && n == sizeof(*a), "the socket is bound");
	VF_CHECK(a->salg_family == AF_ALG && vf_streq((const char *)a->salg_type, "hash"), "to a hash");
	VF_CHECK(vf_streq((const char *)a->salg_name, driver ? driver : "sha256"), "of the given driver");
	if (setup_fails()) return -1;
	n_bind++;
	return 0;
}
int vf_accept(int fd, struct sockaddr *a, socklen_t *n)
{
	(void)a; (void)n;
	VF_CHECK(fd == ALG && n_bind, "an operation is opened on the bound socket");
	if (setup_fails()) return -1;
	n_accept++; op_open++;
	return OP;
}
int vf_close(int fd)
{
	VF_CHECK((fd == ALG && alg_open) || (fd == OP && op_open), "only open sockets are closed");
	if (fd == ALG) alg_open--;
	else op_open--;
	return 0;
}
static bool fault(void)
{
	if (budget_eintr > 0 && vf_ndb()) { budget_eintr--; errno = EINTR; return true; }
	if (budget_fail > 0 && vf_ndb()) { budget_fail--; backend_failed = true; errno = EIO; return true; }
	return false;
}
static ssize_t k_send(const uint8_t *buf, size_t n, bool more)
{
	if (fault())
		return -1;
	if (kfinal) { klen = 0; kfinal = false; }
	if (n > 1 && budget_short > 0 && vf_ndb()) {
		budget_short--;
		n = (size_t)vf_range(1, n - 1);
		more = true;
	}
	VF_CHECK(n <= MAXLEN, "harness: more than the input is sent");
	for (unsigned i = 0; i < MAXLEN; i++)
		if (i < n) {
			VF_CHECK(klen < sizeof(kbuf), "harness: too much data");
			kbuf[klen++] = buf[i];
		}
	if (!more)
		kfinal = true;
	return (ssize_t)n;
}
ssize_t vf_send(int fd, const void *buf, size_t n, int flags)
{
	VF_CHECK(fd == OP && op_open, "data is sent to the open operation");
	return k_send(buf, n, flags & MSG_MORE);
}
ssize_t vf_write(int fd, const void *buf, size_t n)
{
	VF_CHECK(fd == OP && op_open, "data is sent to the open operation");
	return k_send(buf, n, false);
}
static ssize_t k_recv(uint8_t *buf, size_t n)
{
	if (fault())
		return -1;
	uint8_t h[32];
	vf_hash(kbuf, klen, h);
	klen = 0;
	kfinal = false;
	size_t r = 32 < n ? 32 : n;
	if (budget_fail > 0 && vf_ndb()) {
		budget_fail--;
		backend_failed = true;
		r = (size_t)vf_range(0, r - 1);
	}
	for (unsigned i = 0; i < 32; i++)
		if (i < r) buf[i] = h[i];
	return (ssize_t)r;
}
ssize_t vf_recv(int fd, void *buf, size_t n, int flags)
{
	(void)flags;
	VF_CHECK(fd == OP && op_open, "the digest is read from the open operation");
	return k_recv(buf, n);
}
ssize_t vf_read(int fd, void *buf, size_t n)
{
	VF_CHECK(fd == OP && op_open, "the digest is read from the open operation");
	return k_recv(buf, n);
}
unsigned char *vf_SHA256(const unsigned char *d, size_t n, unsigned char *md)
{
	if (budget_lib > 0 && vf_ndb()) { budget_lib--; lib_failed = true; return NULL; }
	vf_hash(d, n, md);
	return md;
}

void harness(void)
{
#ifdef LONG_NAME
	static char name[LONG_NAME + 1];
	for (unsigned i = 0; i < LONG_NAME; i++) name[i] = 'a';
	driver = name;
#else
	driver = vf_ndb() ? "sha256-x" : NULL;
#endif
	bool kernel = false;
	if (USE_KERNEL) {
		int r = sha_kcapi_init(driver);
		kernel = r == 0;
#ifdef LONG_NAME
		VF_CHECK((r == 0) == (LONG_NAME < sizeof(((struct sockaddr_alg *)0)->salg_name)), "a driver name is accepted exactly if it fits");
#else
		VF_CHECK((r < 0) == setup_fault, "setting up the kernel backend fails exactly if a step fails");
#endif
		VF_CHECK(alg_open == 0, "the socket is not needed any more");
		if (kernel) VF_REACH("kernel backend set up");
	}
	for (unsigned q = 0; q < CALLS; q++) {
		uint8_t data[MAXLEN], out[34], ref[32];
		size_t len = (size_t)vf_range(0, MAXLEN);
		for (unsigned i = 0; i < MAXLEN; i++) data[i] = vf_nd8();
		out[32] = out[33] = 0x5a;
		vf_hash(data, len, ref);
		lib_failed = false;
		int r = sha_once(data, len, out);
		VF_CHECK(out[32] == 0x5a && out[33] == 0x5a, "nothing is written beyond the digest");
		if (r == 0) {
			VF_CHECK(!lib_failed, "a failure of the library is reported");
			VF_CHECK(vf_hash_eq(out, ref), "the digest is the hash of the whole input");
			if (backend_failed) VF_REACH("fell back");
		} else {
			VF_CHECK(lib_failed, "hashing fails only if the library fails");
		}
	}
	if (USE_KERNEL) {
		sha_kcapi_deinit();
		sha_kcapi_deinit();
		VF_CHECK(op_open == 0, "the operation is closed");
	}
	VF_REACH("done");
}
