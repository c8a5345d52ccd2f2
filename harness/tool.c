/* csn-tool.c (whole program), C23: crypt on one file, an explicit output or a
 * list of files on standard input, under every failing call.  encrypt.c by the
 * contracts C21/C22 decide.
 *   ARGS    command line            LIST    standard input
 *   IN/OUT  input and output path   IN2/OUT2 of the second file of a list
 *   SIZE    bytes in the input(s)   EXISTS  the output is there already
 *   VALID   the command line makes sense
 *   ID      chunk id in the name: hex digits, '?' is any character */
#include "vf.h"
#define VF_NFILES 5
#define VF_IOMAX 4
#define VF_OWN_EXIT
#define VF_STDOUT 4
#ifndef FAIL_AT
#define FAIL_AT 0	/* which of the fallible calls fails */
#endif
static unsigned fallible;
static bool fail_hook(void) { return ++fallible == FAIL_AT; }
#define VF_FAIL_HOOK fail_hook
#include "vf_env.c"
#include "vf_fs.c"
#include "utils.h"
#include "encrypt.h"

#ifndef EXISTS
#define EXISTS 0
#endif
#ifndef MISSING
#define MISSING 0
#endif
#ifndef VALID
#define VALID 1
#endif
#ifndef LIST
#define LIST ""
#endif
#ifndef FILES
#define FILES 1
#endif
static bool lib_failed;
static bool fails(void)
{
	if (fail_hook()) { lib_failed = true; return true; }
	return false;
}

/* names: the digits of the id are patched into the templates */
static char in_name[2][VF_PATH_MAX + 8], out_name[2][VF_PATH_MAX + 8], list[2 * VF_PATH_MAX + 16];
static char digits[2][65];
static bool id_ok[2] = { true, true };
static uint8_t want_id[2][32];
static uint8_t in_data[2][4], out_data[2][4], orig[2][4], old[2][4], so_data[8];
static uint8_t stream[3][8];

static int hexval(uint8_t c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
/* "@" in a template stands for the 64 characters of the id */
static void expand(char *dst, const char *t, unsigned which)
{
	unsigned n = 0;
	for (unsigned i = 0; t[i]; i++)
		if (t[i] == '@' || t[i] == '#')
			for (unsigned k = 0; k < 64; k++) dst[n++] = digits[t[i] == '#' ? 1 : which][k];
		else
			dst[n++] = t[i];
	dst[n] = 0;
}

/* ---- encrypt.c ---- */
static unsigned restarts, spos;
static bool key_ok, initialised;
static int restarted = -1;
int encrypt_parse_keyspec(uint8_t *key, const char *spec)
{
	VF_CHECK(vf_streq(spec, "key:x"), "the key specification of the command line is used");
	if (fails()) return -1;
	for (int i = 0; i < 32; i++) key[i] = (uint8_t)(i + 1);
	key_ok = true;
	return 0;
}
int encrypt_init(struct encrypt_ctx *c, const uint8_t *key)
{
	(void)c;
	VF_CHECK(key_ok, "the key is valid");
	for (int i = 0; i < 32; i++) VF_CHECK(key[i] == (uint8_t)(i + 1), "the given key is used");
	if (fails()) return -1;
	initialised = true;
	return 0;
}
int encrypt_restart(struct encrypt_ctx *c, const uint8_t *nonce)
{
	(void)c;
	VF_CHECK(initialised, "the context has been set up");
	restarted = -1;
	for (int f = FILES - 1; f >= 0; f--) {
		bool same = id_ok[f];
		for (int i = 0; i < 24; i++) same = same && nonce[i] == want_id[f][i];
		if (same) restarted = f;
	}
	VF_CHECK(restarted >= 0, "the nonce is the id in the name of the input");
	if (fails()) { restarted = -1; return -1; }
	spos = 0;
	restarts++;
	return 0;
}
int encrypt_do(struct encrypt_ctx *c, uint8_t *out, const uint8_t *in, size_t n)
{
	(void)c;
	VF_CHECK(restarted >= 0, "the cipher has been restarted for the file");
	if (fails()) return -1;
	VF_CHECK(n <= SIZE && spos + n <= 8, "no more than the input is processed");
	for (unsigned i = 0; i < 4; i++)
		if (i < n && restarted >= 0) out[i] = in[i] ^ stream[restarted][(spos + i) & 7];
	spos += (unsigned)n;
	return 0;
}
void encrypt_close(struct encrypt_ctx *c) { (void)c; VF_CHECK(initialised, "only a context that has been set up is closed"); initialised = false; }

/* ---- standard input ---- */
static unsigned list_pos;
static bool list_eof, list_failed;
char *vf_fgets(char *s, int n, FILE *f)
{
	(void)f;
	VF_CHECK(n > 0 && n <= VF_PATH_MAX, "harness: line buffer");
	int k = 0;
	if (!list_failed && fails()) list_failed = true;
	if (list_failed) return NULL;
	while (k < n - 1 && list[list_pos]) {
		s[k++] = list[list_pos];
		if (list[list_pos++] == '\n') break;
	}
	if (!k) { list_eof = true; return NULL; }
	s[k] = 0;
	return s;
}
int vf_ferror(FILE *f) { (void)f; return list_failed; }
int vf_feof(FILE *f) { (void)f; return list_eof; }

static bool done;
static void finish(int ret)
{
	VF_CHECK(!done, "the program ends once");
	done = true;
	bool failed = lib_failed || vf_eio_happened || vf_open_failed, names = true;
	for (int f = 0; f < FILES; f++) names = names && id_ok[f];
	bool good = VALID && names && !failed && !(MISSING && !EXISTS);
	if (HELP)
		VF_CHECK(ret == 0, "asking for help succeeds");
	else if (good)
		VF_CHECK((ret & 0xff) == 0, "success if nothing fails");
	else
		VF_CHECK((ret & 0xff) != 0, "any failure gives a failing exit status");
	for (int f = 0; f < FILES; f++) {
		struct vf_file *in = &vf_files[2 * f], *out = &vf_files[2 * f + 1];
		VF_CHECK(in->writes + in->creats + in->truncs + in->unlinks + in->wopens == 0, "the input is only read");
		if (TO_STDOUT) {
			VF_CHECK(out->opens + out->creats + out->unlinks == 0, "no file is written if the output is standard output");
			if (ret == 0 && VALID && !HELP) {
				VF_CHECK(vf_files[4].size == SIZE, "standard output receives all of the output");
				for (unsigned i = 0; i < SIZE; i++) VF_CHECK(so_data[i] == (orig[f][i] ^ stream[f][i]), "the output is the input under the key stream of its id");
			}
			continue;
		}
		VF_CHECK(vf_files[4].writes == 0, "nothing is written to standard output");
		if (EXISTS && f == 0) {
			VF_CHECK(out->kind == VF_REG && out->wopens + out->truncs + out->writes + out->unlinks == 0 && out->size == 1 && old[f][0] == out_data[f][0], "an existing output is left alone");
			continue;
		}
		if (ret == 0 && VALID && !HELP) {
			VF_CHECK(out->kind == VF_REG && out->size == SIZE, "the output is complete");
			for (unsigned i = 0; i < SIZE; i++) VF_CHECK(out_data[f][i] == (orig[f][i] ^ stream[f][i]), "the output is the input under the key stream of its id");
		} else if (out->kind != VF_ABSENT) {
			/* files of a list that were finished before the failure stay */
			VF_CHECK(FILES == 2 && out->size == SIZE, "a failure leaves no partial output behind");
			for (unsigned i = 0; i < SIZE; i++) VF_CHECK(out_data[f][i] == (orig[f][i] ^ stream[f][i]), "a failure leaves no partial output behind");
		}
	}
	if (ret == 0) VF_REACH("success");
	else VF_REACH("failure");
}
void vf_exit(int code) { finish(code); vf_stop(); }

int vf_repo_main(int argc, char **argv);
void harness(void)
{
	static const char id[2][65] = { ID, "5566778899AABBCCDDEEFF00112233445566778899aabbccddeeff0011223344" };
	for (int f = 0; f < 2; f++) {
		for (int i = 0; i < 64; i++) {
			digits[f][i] = id[f][i];
			if (id[f][i] == '?') {
				digits[f][i] = (char)vf_nd8();
				VF_ASSUME(digits[f][i] != 0 && digits[f][i] != '/' && digits[f][i] != '\n' && digits[f][i] != '\r');
				if (hexval((uint8_t)digits[f][i]) < 0) id_ok[f] = false;
			}
		}
		for (int i = 0; i < 32; i++)
			want_id[f][i] = (uint8_t)((unsigned)hexval((uint8_t)digits[f][2 * i]) * 16 + (unsigned)hexval((uint8_t)digits[f][2 * i + 1]));
		for (int i = 0; i < 4; i++) {
			orig[f][i] = in_data[f][i] = vf_nd8();
			old[f][i] = out_data[f][i] = vf_nd8();
		}
		for (int i = 0; i < 8; i++) stream[f][i] = vf_nd8();
	}
	expand(in_name[0], IN, 0);
	expand(out_name[0], OUT, 0);
	expand(list, LIST, 0);
#if FILES == 2
	expand(in_name[1], IN2, 1);
	expand(out_name[1], OUT2, 1);
#endif
	for (int f = 0; f < FILES; f++) {
		vf_files[2 * f].path = in_name[f];
		vf_files[2 * f].kind = MISSING ? VF_ABSENT : VF_REG;
		vf_files[2 * f].data = in_data[f];
		vf_files[2 * f].size = vf_files[2 * f].cap = SIZE;
		vf_files[2 * f + 1].path = out_name[f];
		vf_files[2 * f + 1].kind = EXISTS && f == 0 ? VF_REG : VF_ABSENT;
		vf_files[2 * f + 1].data = out_data[f];
		vf_files[2 * f + 1].size = EXISTS && f == 0;
		vf_files[2 * f + 1].cap = 4;
	}
	vf_files[4].kind = VF_REG;
	vf_files[4].data = so_data;
	vf_files[4].cap = 8;
	static char *argv[] = { "csn-tool", ARGS, NULL };
	int argc = (int)(sizeof(argv) / sizeof(*argv)) - 1;
	for (int i = 0; i < argc; i++) {
		if (argv[i][0] == '<') argv[i] = in_name[0];
		else if (argv[i][0] == '>') argv[i] = out_name[0];
	}
	finish(vf_repo_main(argc, argv));
}
