/* encrypt.c, C21.  MODE 0: what encrypt_restart passes to the cipher, for every
 * key and chunk id.  MODE 1: sequences of restarts and encryptions under every
 * failure of the library, with an arbitrary key stream.  MODE 2: lengths beyond
 * what the library takes at once. */
#include "vf.h"
#include "vf_env.c"
#include "utils.h"
#include "encrypt.h"

#ifndef FAILS
#define FAILS 0
#endif
static int budget_fail = FAILS;
static bool failed;
static bool lib_fails(void)
{
	if (budget_fail > 0 && vf_ndb()) { budget_fail--; failed = true; return true; }
	return false;
}

/* ---- reference: HChaCha20 as in draft-irtf-cfrg-xchacha ---- */
static uint32_t ld(const uint8_t *p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t rotl(uint32_t x, int n) { return x << n | x >> (32 - n); }
#define QR(a, b, c, d) a += b; d = rotl(d ^ a, 16); c += d; b = rotl(b ^ c, 12); a += b; d = rotl(d ^ a, 8); c += d; b = rotl(b ^ c, 7)
static void ref_hchacha20(uint8_t *out, const uint8_t *key, const uint8_t *in)
{
	uint32_t x[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
	for (int i = 0; i < 8; i++) x[4 + i] = ld(key + 4 * i);
	for (int i = 0; i < 4; i++) x[12 + i] = ld(in + 4 * i);
	for (int i = 0; i < 10; i++) {
		QR(x[0], x[4], x[8], x[12]);
		QR(x[1], x[5], x[9], x[13]);
		QR(x[2], x[6], x[10], x[14]);
		QR(x[3], x[7], x[11], x[15]);
		QR(x[0], x[5], x[10], x[15]);
		QR(x[1], x[6], x[11], x[12]);
		QR(x[2], x[7], x[8], x[13]);
		QR(x[3], x[4], x[9], x[14]);
	}
	for (int i = 0; i < 4; i++)
		for (int j = 0; j < 4; j++) {
			out[4 * i + j] = (uint8_t)(x[i] >> 8 * j);
			out[16 + 4 * i + j] = (uint8_t)(x[12 + i] >> 8 * j);
		}
}

/* ---- the cipher ---- */
static char ctx_obj[8], chacha_obj[8], other_obj[8];
static bool ctx_live, clean, ready;
static unsigned news, frees, inits;
static uint8_t init_key[32], init_iv[16];
static size_t pos;			/* key stream bytes consumed since the last init */
EVP_CIPHER_CTX *vf_EVP_CIPHER_CTX_new(void)
{
	if (lib_fails()) return NULL;
	news++;
	ctx_live = clean = true;
	return (EVP_CIPHER_CTX *)ctx_obj;
}
void vf_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c)
{
	if (!c) return;
	VF_CHECK(c == (EVP_CIPHER_CTX *)ctx_obj && ctx_live, "only a live cipher context is freed");
	frees++;
	ctx_live = false;
}
int vf_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c)
{
	VF_CHECK(c == (EVP_CIPHER_CTX *)ctx_obj && ctx_live, "the cipher context is live");
	ready = false;
	if (lib_fails()) return 0;
	clean = true;
	return 1;
}
const EVP_CIPHER *vf_EVP_chacha20(void) { return (const EVP_CIPHER *)chacha_obj; }
int vf_EVP_CipherInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *key, const unsigned char *iv, int enc)
{
	(void)enc;
	VF_CHECK(c == (EVP_CIPHER_CTX *)ctx_obj && ctx_live, "the cipher context is live");
	VF_CHECK(t == (const EVP_CIPHER *)chacha_obj, "the cipher is ChaCha20");
	VF_CHECK(key && iv, "key and nonce are given");
	ready = false;
	if (lib_fails()) return 0;
	for (int i = 0; i < 32; i++) init_key[i] = key[i];
	for (int i = 0; i < 16; i++) init_iv[i] = iv[i];
	inits++;
	pos = 0;
	ready = true;
	return 1;
}
int vf_EVP_CipherInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv, int enc)
{
	(void)e;
	return vf_EVP_CipherInit(c, t, key, iv, enc);
}
int vf_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv)
{
	(void)e;
	return vf_EVP_CipherInit(c, t, key, iv, 1);
}
#if MODE == 1
static uint8_t stream[RESTARTS + 1][16];
#endif
#if MODE == 2
static uint8_t big_in[4], big_out[4];	/* never dereferenced */
#ifdef VF_CBMC
#define POFF(p, b) ((uint64_t)__CPROVER_POINTER_OFFSET(p))
#else
#define POFF(p, b) ((uint64_t)((uintptr_t)(p) - (uintptr_t)(b)))
#endif
#endif
static bool apply(EVP_CIPHER_CTX *c, unsigned char *out, const unsigned char *in, unsigned int n)
{
	VF_CHECK(c == (EVP_CIPHER_CTX *)ctx_obj && ctx_live && ready, "the cipher has been set up");
	VF_CHECK(n <= INT_MAX, "the length fits the library's interface");
	if (lib_fails()) return false;
#if MODE == 1
	VF_CHECK(pos + n <= 16, "harness: key stream model too short");
	for (unsigned i = 0; i < 16; i++)
		if (i < n) out[i] = in[i] ^ stream[inits][pos + i];
#elif MODE == 2
	VF_CHECK(POFF(in, big_in) == pos && POFF(out, big_out) == pos, "every byte is processed once, in order");
#endif
	pos += n;
	return true;
}
int vf_EVP_Cipher(EVP_CIPHER_CTX *c, unsigned char *out, const unsigned char *in, unsigned int n)
{
	if (!n) return 0;	/* EVP_Cipher returns the number of bytes */
	if (!apply(c, out, in, n)) return vf_ndb() ? 0 : -1;
	return (int)n;
}
int vf_EVP_CipherUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int n)
{
	VF_CHECK(n >= 0, "the length fits the library's interface");
	if (!apply(c, out, in, (unsigned)n)) return 0;
	*outl = n;
	return 1;
}
int vf_open(const char *p, int f, ...) { (void)p; (void)f; return -1; }
int vf_close(int fd) { (void)fd; return 0; }
ssize_t vf_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; return -1; }
int vf_fstat(int fd, struct stat *st) { (void)fd; (void)st; return -1; }
int vf_ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; return -1; }
char *vf_getenv(const char *n) { (void)n; return NULL; }

void harness(void)
{
	struct encrypt_ctx ec;
	uint8_t key[32], id[32];
#if MODE == 0
	uint8_t want[32];
	for (int i = 0; i < 32; i++) key[i] = i < KEYSYM ? vf_nd8() : (uint8_t)(i * 7 + 1);
	for (int i = 0; i < 32; i++) id[i] = i >= 16 || i < IDSYM ? vf_nd8() : (uint8_t)(i * 13 + 5);
	VF_CHECK(encrypt_init(&ec, key) == 0, "initialisation succeeds");
	VF_CHECK(encrypt_restart(&ec, id) == 0, "restarting succeeds");
	VF_CHECK(ready && inits == 1, "the cipher is set up");
	for (int i = 0; i < 8; i++)
		VF_CHECK(init_iv[i] == 0, "the block counter starts at 0");
	for (int i = 0; i < 8; i++)
		VF_CHECK(init_iv[8 + i] == id[16 + i], "the nonce is bytes 16 to 23 of the id");
	ref_hchacha20(want, key, id);
	uint8_t diff = 0;
	for (int i = 0; i < 32; i++) diff |= (uint8_t)(init_key[i] ^ want[i]);
	VF_CHECK(diff == 0, "the sub-key is HChaCha20 of key and id");
	VF_REACH("done");
#elif MODE == 1
	static const uint8_t lens[] = { LENS };		/* 255: restart */
	uint8_t buf[8], out[10];
	for (int i = 0; i < 32; i++) { key[i] = (uint8_t)(i * 7 + 1); id[i] = (uint8_t)(i * 13 + 5); }
	for (int r = 0; r <= RESTARTS; r++)
		for (int i = 0; i < 16; i++) stream[r][i] = vf_nd8();
	int r = encrypt_init(&ec, key);
	VF_CHECK((r == 0) == !failed, "initialisation succeeds exactly if the library does");
	if (r < 0) { VF_REACH("initialisation failed"); return; }
	for (int i = 0; i < 32; i++) key[i] = 0xee;	/* the key has been copied */
	size_t total = 0;
	bool usable = false;
	unsigned restarts = 0;
	for (unsigned k = 0; k < sizeof(lens); k++) {
		failed = false;
		if (lens[k] == 255) {
			restarts++;
#ifdef OTHER_ID
			id[0]++;
#endif
			unsigned before = inits;
			r = encrypt_restart(&ec, id);
			VF_CHECK((r == 0) == !failed, "restarting succeeds exactly if the library does");
			usable = r == 0;
			if (usable) {
				uint8_t want[32];
				for (int i = 0; i < 32; i++) key[i] = (uint8_t)(i * 7 + 1);
				ref_hchacha20(want, key, id);
				VF_CHECK(inits > before && ready && pos == 0, "a restart sets the cipher up anew");
				for (int i = 0; i < 32; i++) VF_CHECK(init_key[i] == want[i], "the sub-key is HChaCha20 of key and id");
				for (int i = 0; i < 16; i++) VF_CHECK(init_iv[i] == (i < 8 ? 0 : id[8 + i]), "the nonce is bytes 16 to 23 of the id, the block counter 0");
			}
			total = 0;
			continue;
		}
		if (!usable) { VF_REACH("a restart failed"); break; }
		unsigned gen = inits, n = lens[k];
		for (unsigned i = 0; i < sizeof(buf); i++) buf[i] = vf_nd8();
		for (unsigned i = 0; i < sizeof(out); i++) out[i] = 0x5a;
#ifdef IN_PLACE
		for (unsigned i = 0; i < n; i++) out[i] = buf[i];
		r = encrypt_do(&ec, out, out, n);
#else
		r = encrypt_do(&ec, out, buf, n);
#endif
		VF_CHECK(failed ? r < 0 : r == 0, "encryption succeeds exactly if the library does");
		for (unsigned i = n; i < sizeof(out); i++) VF_CHECK(out[i] == 0x5a, "nothing is written beyond the output");
		if (r < 0) { usable = false; VF_REACH("encryption failed"); break; }
		for (unsigned i = 0; i < n; i++)
			VF_CHECK(out[i] == (uint8_t)(buf[i] ^ stream[gen][total + i]), "the output is the input under the next bytes of the key stream");
		total += n;
		VF_REACH("encrypted");
	}
	encrypt_close(&ec);
	VF_CHECK(news == 1 && frees == 1, "closing frees the cipher context once");
	const volatile uint8_t *e = (const volatile uint8_t *)ec.key;
	for (int i = 0; i < 32; i++) VF_CHECK(e[i] == 0, "closing wipes the key");
	VF_REACH("done");
#else
	for (int i = 0; i < 32; i++) { key[i] = 1; id[i] = 2; }
	if (encrypt_init(&ec, key) < 0 || encrypt_restart(&ec, id) < 0) { VF_CHECK(0, "set up"); return; }
	uint64_t len = vf_range(0, MAXLEN), len2 = vf_range(0, 100);
	VF_CHECK(encrypt_do(&ec, big_out, big_in, len) == 0, "encrypting succeeds");
	VF_CHECK(pos == len, "success means every byte was processed");
	if (len > ((uint64_t)1 << 32)) VF_REACH("more than 4 GiB");
	pos = 0;
	VF_CHECK(encrypt_do(&ec, big_out, big_in, len2) == 0 && pos == len2, "encrypting succeeds");
	VF_REACH("done");
#endif
}
