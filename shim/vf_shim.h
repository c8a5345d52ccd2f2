/* Force-included (-include) before every translation unit taken from /repo and
 * before every harness.  It pulls in the system headers first (unmodified) and
 * then redirects the environment of the program -- system calls, libcurl, zstd,
 * libcrypto, clocks -- to the vf_* stand-ins that the harnesses define.
 * Nothing of /repo itself is changed: the functions under test are compiled
 * from the current working tree as they are. */
#ifndef VF_SHIM_H
#define VF_SHIM_H

#define CURL_DISABLE_TYPECHECK 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
/* functions instead of the table look-ups of the headers */
#undef isalnum
#undef isalpha
#undef isdigit
#undef isxdigit
#undef isspace
#undef isupper
#undef islower
#undef isprint
#undef tolower
#undef toupper
#include <limits.h>
#include <inttypes.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <getopt.h>
#include <libgen.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <linux/fs.h>
#include <linux/if_alg.h>
#undef basename
#define basename vf_basename
char *vf_basename(char *);
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <curl/curl.h>
#include <zstd.h>

#ifdef VF_PATH_MAX
#undef PATH_MAX
#define PATH_MAX VF_PATH_MAX
#endif
#ifdef VF_BUFSIZ
#undef BUFSIZ
#define BUFSIZ VF_BUFSIZ
#endif

extern int vf_errno;
#undef errno
#define errno vf_errno

/* ---- files ---- */
#define open vf_open
#define openat vf_openat
#define creat vf_creat
#define close vf_close
#define read vf_read
#define write vf_write
#define pread vf_pread
#define pwrite vf_pwrite
#define pread64 vf_pread
#define pwrite64 vf_pwrite
#define lseek vf_lseek
#define fstat vf_fstat
#define ioctl vf_ioctl
#define ftruncate vf_ftruncate
#define fsync vf_fsync
#define fdatasync vf_fsync
#define access vf_access
#define unlink vf_unlink
#define rename vf_rename
#define posix_fadvise vf_posix_fadvise
#define isatty vf_isatty

/* ---- process ---- */
#define exit vf_exit
#define abort vf_abort
#define getenv vf_getenv
#define usleep vf_usleep
#define nanosleep vf_nanosleep
#define sleep vf_sleep
#define clock_gettime vf_clock_gettime
#define strerror vf_strerror
#define getopt_long vf_getopt_long

#ifdef VF_CBMC
/* CBMC's own model of realloc loses the contents of struct arrays */
#define realloc vf_realloc
void *vf_realloc(void *, size_t);
#ifdef VF_LOOP_MEM
/* byte loops instead of array theory: better for short copies of symbolic length */
void *vf_memcpy(void *, const void *, size_t);
void *vf_memmove(void *, const void *, size_t);
#define memcpy vf_memcpy
#define memmove vf_memmove
#endif
#endif

/* ---- sockets (AF_ALG) ---- */
#define socket vf_socket
#define bind vf_bind
#define accept vf_accept
#define send vf_send
#define recv vf_recv

/* ---- stdio ---- */
#undef fgets
#define fgets vf_fgets
#undef ferror
#define ferror vf_ferror
#undef feof
#define feof vf_feof
#undef printf
#define printf vf_printf
#undef fprintf
#define fprintf vf_fprintf
#undef putchar
#define putchar vf_putchar
#undef puts
#define puts vf_puts
#undef fputs
#define fputs vf_fputs
#undef fputc
#define fputc vf_fputc
#undef putc
#define putc vf_fputc
#undef vfprintf
#define vfprintf vf_vfprintf
#undef vsnprintf
#define vsnprintf vf_vsnprintf
#define flockfile(f) ((void)(f))
#define funlockfile(f) ((void)(f))
#undef fflush
#define fflush vf_fflush
#undef sprintf
#define sprintf vf_sprintf
#undef snprintf
#define snprintf vf_snprintf

/* ---- sorting ---- */
#define qsort vf_qsort
#define bsearch vf_bsearch

/* ---- libcrypto ---- */
#define SHA256 vf_SHA256
#define SHA256_Init vf_SHA256_Init
#define SHA256_Update vf_SHA256_Update
#define SHA256_Final vf_SHA256_Final
#define EVP_CIPHER_CTX_new vf_EVP_CIPHER_CTX_new
#define EVP_CIPHER_CTX_free vf_EVP_CIPHER_CTX_free
#define EVP_CIPHER_CTX_reset vf_EVP_CIPHER_CTX_reset
#undef EVP_CipherInit
#define EVP_CipherInit vf_EVP_CipherInit
#define EVP_CipherInit_ex vf_EVP_CipherInit_ex
#undef EVP_EncryptInit_ex
#define EVP_EncryptInit_ex vf_EVP_EncryptInit_ex
#define EVP_Cipher vf_EVP_Cipher
#define EVP_CipherUpdate vf_EVP_CipherUpdate
#define EVP_EncryptUpdate vf_EVP_CipherUpdate
#define EVP_chacha20 vf_EVP_chacha20

/* ---- libcurl ---- */
#undef curl_easy_setopt
#undef curl_easy_getinfo
#define curl_global_init vf_curl_global_init
#define curl_easy_init vf_curl_easy_init
#define curl_easy_cleanup vf_curl_easy_cleanup
#define curl_easy_reset vf_curl_easy_reset
#define curl_easy_setopt vf_curl_easy_setopt
#define curl_easy_getinfo vf_curl_easy_getinfo
#define curl_easy_perform vf_curl_easy_perform
#define curl_easy_strerror vf_curl_easy_strerror

/* ---- zstd ---- */
#define ZSTD_createDStream vf_ZSTD_createDStream
#define ZSTD_freeDStream vf_ZSTD_freeDStream
#define ZSTD_initDStream vf_ZSTD_initDStream
#define ZSTD_DCtx_reset vf_ZSTD_DCtx_reset
#define ZSTD_decompressStream vf_ZSTD_decompressStream
#define ZSTD_isError vf_ZSTD_isError
#define ZSTD_getErrorName vf_ZSTD_getErrorName

/* ---- prototypes of the stand-ins ---- */
int vf_open(const char *, int, ...);
int vf_openat(int, const char *, int, ...);
int vf_creat(const char *, mode_t);
int vf_close(int);
ssize_t vf_read(int, void *, size_t);
ssize_t vf_write(int, const void *, size_t);
ssize_t vf_pread(int, void *, size_t, off_t);
ssize_t vf_pwrite(int, const void *, size_t, off_t);
off_t vf_lseek(int, off_t, int);
int vf_fstat(int, struct stat *);
int vf_ioctl(int, unsigned long, ...);
int vf_ftruncate(int, off_t);
int vf_fsync(int);
int vf_access(const char *, int);
int vf_unlink(const char *);
int vf_rename(const char *, const char *);
int vf_posix_fadvise(int, off_t, off_t, int);
int vf_isatty(int);
void vf_exit(int) __attribute__((noreturn));
void vf_abort(void) __attribute__((noreturn));
char *vf_getenv(const char *);
int vf_usleep(useconds_t);
int vf_nanosleep(const struct timespec *, struct timespec *);
unsigned vf_sleep(unsigned);
int vf_clock_gettime(clockid_t, struct timespec *);
char *vf_strerror(int);
int vf_getopt_long(int, char *const *, const char *, const struct option *, int *);
int vf_socket(int, int, int);
int vf_bind(int, const struct sockaddr *, socklen_t);
int vf_accept(int, struct sockaddr *, socklen_t *);
ssize_t vf_send(int, const void *, size_t, int);
ssize_t vf_recv(int, void *, size_t, int);
char *vf_fgets(char *, int, FILE *);
int vf_ferror(FILE *);
int vf_feof(FILE *);
int vf_printf(const char *, ...);
int vf_fprintf(FILE *, const char *, ...);
int vf_putchar(int);
int vf_puts(const char *);
int vf_fputs(const char *, FILE *);
int vf_fputc(int, FILE *);
int vf_vfprintf(FILE *, const char *, va_list);
int vf_vsnprintf(char *, size_t, const char *, va_list);
int vf_fflush(FILE *);
int vf_sprintf(char *, const char *, ...);
int vf_snprintf(char *, size_t, const char *, ...);
void vf_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
void *vf_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *));
unsigned char *vf_SHA256(const unsigned char *, size_t, unsigned char *);
int vf_SHA256_Init(SHA256_CTX *);
int vf_SHA256_Update(SHA256_CTX *, const void *, size_t);
int vf_SHA256_Final(unsigned char *, SHA256_CTX *);
EVP_CIPHER_CTX *vf_EVP_CIPHER_CTX_new(void);
void vf_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *);
int vf_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *);
int vf_EVP_CipherInit(EVP_CIPHER_CTX *, const EVP_CIPHER *, const unsigned char *, const unsigned char *, int);
int vf_EVP_CipherInit_ex(EVP_CIPHER_CTX *, const EVP_CIPHER *, ENGINE *, const unsigned char *, const unsigned char *, int);
int vf_EVP_EncryptInit_ex(EVP_CIPHER_CTX *, const EVP_CIPHER *, ENGINE *, const unsigned char *, const unsigned char *);
int vf_EVP_Cipher(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, unsigned int);
int vf_EVP_CipherUpdate(EVP_CIPHER_CTX *, unsigned char *, int *, const unsigned char *, int);
const EVP_CIPHER *vf_EVP_chacha20(void);
CURLcode vf_curl_global_init(long);
CURL *vf_curl_easy_init(void);
void vf_curl_easy_cleanup(CURL *);
void vf_curl_easy_reset(CURL *);
CURLcode vf_curl_easy_setopt(CURL *, CURLoption, ...);
CURLcode vf_curl_easy_getinfo(CURL *, CURLINFO, ...);
CURLcode vf_curl_easy_perform(CURL *);
const char *vf_curl_easy_strerror(CURLcode);
ZSTD_DStream *vf_ZSTD_createDStream(void);
size_t vf_ZSTD_freeDStream(ZSTD_DStream *);
size_t vf_ZSTD_initDStream(ZSTD_DStream *);
size_t vf_ZSTD_DCtx_reset(ZSTD_DCtx *, ZSTD_ResetDirective);
size_t vf_ZSTD_decompressStream(ZSTD_DStream *, ZSTD_outBuffer *, ZSTD_inBuffer *);
unsigned vf_ZSTD_isError(size_t);
const char *vf_ZSTD_getErrorName(size_t);

#endif
