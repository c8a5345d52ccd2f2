/* encrypt_parse_keyspec (C22).  SRC 0: key:, 1: env:, 2: file:, 3: anything
 * else.  LEN characters (bytes of the file) are arbitrary. */
#include "vf.h"
#define VF_NFILES 1
#define VF_IOMAX 140
#include "vf_env.c"
#include "vf_fs.c"
#include "utils.h"
#include "encrypt.h"

#ifndef KIND
#define KIND VF_REG
#endif
#ifndef EIO_N
#define EIO_N 0
#endif
static char text[LEN + 1];
static bool env_set;
char *vf_getenv(const char *n)
{
	VF_CHECK(SRC == 1 && vf_streq(n, "K"), "only the named environment variable is consulted");
	return env_set ? text : NULL;
}
EVP_CIPHER_CTX *vf_EVP_CIPHER_CTX_new(void) { return NULL; }
void vf_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { (void)c; }
int vf_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { (void)c; return 0; }
const EVP_CIPHER *vf_EVP_chacha20(void) { return NULL; }
int vf_EVP_CipherInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *i, int e) { (void)c; (void)t; (void)k; (void)i; (void)e; return 0; }
int vf_EVP_Cipher(EVP_CIPHER_CTX *c, unsigned char *o, const unsigned char *i, unsigned int n) { (void)c; (void)o; (void)i; (void)n; return 0; }

static int hexval(uint8_t c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}

#if SRC == 4
/* chomp itself, any string */
void harness(void)
{
	char want[LEN + 1];
	for (unsigned i = 0; i < LEN; i++) text[i] = (char)vf_nd8();
	text[LEN] = 0;
	unsigned len = 0;
	while (text[len]) len++;
	unsigned n = len;
	while (n && (text[n - 1] == '\n' || text[n - 1] == '\r')) n--;
	for (unsigned i = 0; i <= LEN; i++) want[i] = text[i];
	chomp(text);
	for (unsigned i = 0; i <= LEN; i++) {
		if (i < n) VF_CHECK(text[i] == want[i], "the text is left as it is");
		if (i == n) VF_CHECK(text[i] == 0, "exactly the line endings at the end are removed");
	}
	if (n + 1 < len) VF_REACH("removed");
	VF_REACH("done");
}
#else
#ifndef OWN_CHOMP
void chomp(char *s)
{
	/* fixed positions only, so that no array access has a symbolic index */
	unsigned n = LEN, i;
	for (i = 0; i < LEN; i++)
		if (!s[LEN - 1 - i]) n = LEN - 1 - i;
	for (i = 0; i < LEN; i++)
		if (n == LEN - i && (s[LEN - 1 - i] == '\n' || s[LEN - 1 - i] == '\r')) n--;
	for (i = 0; i <= LEN; i++)
		if (i == n) s[i] = 0;
}
#endif
void harness(void)
{
	char spec[LEN + 16];
	uint8_t key[34];
	bool readable = true;
	for (unsigned i = 0; i < LEN; i++) {
		text[i] = (char)vf_nd8();
		if (SRC != 2) VF_ASSUME(text[i] != 0);
	}
	text[LEN] = 0;
	key[32] = key[33] = 0x5a;
	unsigned len = LEN;		/* of the key text */
#if SRC == 0
	spec[0] = 'k'; spec[1] = 'e'; spec[2] = 'y'; spec[3] = ':';
	for (unsigned i = 0; i <= LEN; i++) spec[4 + i] = text[i];
#elif SRC == 1
	strcpy(spec, "env:K");
	env_set = vf_ndb();
	readable = env_set;
#elif SRC == 2
	strcpy(spec, "file:F");
	vf_files[0].path = "F";
	vf_files[0].kind = KIND;
	vf_files[0].data = (uint8_t *)text;
	vf_files[0].size = LEN;
	vf_files[0].cap = LEN;
	vf_budget_eio = EIO_N;
	readable = vf_files[0].kind == VF_REG;
	len = LEN;
	for (unsigned i = 0; i < LEN; i++)
		if (!text[LEN - 1 - i]) len = LEN - 1 - i;
	for (unsigned i = 0; i < LEN; i++)
		if (len == LEN - i && (text[LEN - 1 - i] == '\n' || text[LEN - 1 - i] == '\r')) len--;
#else
	for (unsigned i = 0; i <= LEN; i++) spec[i] = text[i];
	VF_ASSUME(!(LEN >= 4 && text[0] == 'k' && text[1] == 'e' && text[2] == 'y' && text[3] == ':'));
	VF_ASSUME(!(LEN >= 4 && text[0] == 'e' && text[1] == 'n' && text[2] == 'v' && text[3] == ':'));
	VF_ASSUME(!(LEN >= 5 && text[0] == 'f' && text[1] == 'i' && text[2] == 'l' && text[3] == 'e' && text[4] == ':'));
	readable = false;
#endif
	bool good = len == 64;
	uint8_t want[32];
	if (LEN >= 64)
		for (unsigned i = 0; i < 32; i++) {
			int h = hexval((uint8_t)text[2 * i]), l = hexval((uint8_t)text[2 * i + 1]);
			if (h < 0 || l < 0) good = false;
			want[i] = (uint8_t)((unsigned)h * 16 + (unsigned)l);
		}
	int r = encrypt_parse_keyspec(key, spec);
	VF_CHECK(key[32] == 0x5a && key[33] == 0x5a, "nothing is written beyond the key");
	readable = readable && !vf_eio_happened;
	VF_CHECK((r == 0) == (readable && good), "a key is accepted exactly if its source yields 64 hexadecimal digits");
	if (r == 0) {
		for (unsigned i = 0; i < 32; i++)
			if (LEN >= 64) VF_CHECK(key[i] == want[i], "the key is the value of the digits");
		VF_REACH("accepted");
	} else
		VF_REACH("refused");
	if (SRC == 2)
		for (unsigned i = 0; i < VF_NFDS; i++) VF_CHECK(!vf_fds[i].used, "the key file is closed");
}
#endif
