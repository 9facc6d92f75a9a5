/* Native side of the harness interface. Under the symbolic engine these
 * functions are intercepted; natively they read a recorded input and evaluate
 * the checks, which is how a solver model is replayed against the real build. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint8_t *in; static size_t nin, pos; static uint64_t params[64]; static int nparams;
static uint64_t h = 0xcbf29ce484222325ull; static uint64_t nobs;
void vhn_init(uint8_t *p, size_t n, const uint64_t *ps, int np) { in = p; nin = n; pos = 0; nparams = np; memcpy(params, ps, np * 8); }
void vhn_done(void) { printf("OBS %016llx %llu\n", (unsigned long long)h, (unsigned long long)nobs); fflush(stdout); }
void vh_sym(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = pos < nin ? in[pos++] : 0; }
void vh_assume(int32_t c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(4); } }
void vh_check(int32_t c, const char *m, size_t n) { if (!c) { printf("CHECK-FAILED %.*s\n", (int)n, m); fflush(stdout); _Exit(3); } }
void vh_observe(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x100000001b3ull; } nobs += n; }
uint64_t vh_param(uint64_t i) { return i < (uint64_t)nparams ? params[i] : 0; }
void vh_reach(uint64_t i) { (void)i; }
uint64_t vh_concretize(uint64_t x) { return x; }
uint64_t vh_is_symbolic(uint64_t x) { (void)x; return 0; }
void vh_log(const char *p, size_t n) { fprintf(stderr, "LOG %.*s\n", (int)n, p); }
/* file calls that are not for the stand-in disk of h_fs.rs */
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <sys/stat.h>
int vh_raw_open(const char *p, int f, int m) { return syscall(SYS_openat, AT_FDCWD, p, f, m); }
ssize_t vh_raw_read(int f, void *p, size_t n) { return syscall(SYS_read, f, p, n); }
ssize_t vh_raw_write(int f, const void *p, size_t n) { return syscall(SYS_write, f, p, n); }
int64_t vh_raw_lseek(int f, int64_t o, int w) { return syscall(SYS_lseek, f, o, w); }
int vh_raw_close(int f) { return syscall(SYS_close, f); }
int vh_raw_statx(int d, const char *p, int fl, unsigned m, void *o) { return syscall(SYS_statx, d, p, fl, m, o); }
int vh_raw_unlink(const char *p) { return syscall(SYS_unlink, p); }
int vh_raw_rename(const char *a, const char *b) { return syscall(SYS_rename, a, b); }
int vh_raw_mkdir(const char *p, unsigned m) { return syscall(SYS_mkdir, p, m); }
