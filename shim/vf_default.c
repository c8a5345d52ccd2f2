/* Native replay only: weak fall-backs for every redirected call. A harness
 * that does not define one of them must never reach it. */
#include <stdio.h>
#include <unistd.h>
#define D(n) __attribute__((weak)) long n(void) { fprintf(stderr, "VF-UNMODELLED: %s\n", #n); fflush(NULL); _exit(76); }
D(vf_open) D(vf_openat) D(vf_creat) D(vf_close) D(vf_read) D(vf_write) D(vf_pread) D(vf_pwrite) D(vf_lseek)
D(vf_fstat) D(vf_ioctl) D(vf_ftruncate) D(vf_fsync) D(vf_access) D(vf_unlink) D(vf_rename) D(vf_posix_fadvise)
D(vf_isatty) D(vf_exit) D(vf_abort) D(vf_getenv) D(vf_usleep) D(vf_nanosleep) D(vf_sleep) D(vf_clock_gettime)
D(vf_strerror) D(vf_getopt_long) D(vf_socket) D(vf_bind) D(vf_accept) D(vf_send) D(vf_recv) D(vf_fgets)
D(vf_printf) D(vf_fprintf) D(vf_putchar) D(vf_puts) D(vf_fputs) D(vf_fflush) D(vf_sprintf) D(vf_snprintf)
D(vf_basename) D(vf_qsort) D(vf_bsearch) D(vf_SHA256) D(vf_SHA256_Init) D(vf_SHA256_Update) D(vf_SHA256_Final)
D(vf_EVP_CIPHER_CTX_new) D(vf_EVP_CIPHER_CTX_free) D(vf_EVP_CIPHER_CTX_reset) D(vf_EVP_CipherInit)
D(vf_EVP_CipherInit_ex) D(vf_EVP_EncryptInit_ex) D(vf_EVP_Cipher) D(vf_EVP_CipherUpdate) D(vf_EVP_chacha20)
D(vf_curl_global_init) D(vf_curl_easy_init) D(vf_curl_easy_cleanup) D(vf_curl_easy_reset) D(vf_curl_easy_setopt)
D(vf_curl_easy_getinfo) D(vf_curl_easy_perform) D(vf_curl_easy_strerror)
D(vf_ZSTD_createDStream) D(vf_ZSTD_freeDStream) D(vf_ZSTD_initDStream) D(vf_ZSTD_DCtx_reset)
D(vf_ZSTD_decompressStream) D(vf_ZSTD_isError) D(vf_ZSTD_getErrorName)
D(vf_ferror) D(vf_feof) D(vf_fputc) D(vf_vfprintf) D(vf_vsnprintf)
