/* LD_PRELOAD shim: numbers every operation that changes a file whose name ends in ".h5" (creation, writes, truncation) and
   makes the VF_FAIL_AT-th of them fail (mode once) or it and all later ones (mode sticky) with the given errno.
   Each operation is logged as one line in VF_FAIL_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>

static int count = 0;
static int named(const char *p) { size_t n = strlen(p); return n > 3 && !strcmp(p + n - 3, ".h5"); }
static int isf(int fd)
{
     char l[64], p[4096];
     ssize_t n;
     snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
     n = readlink(l, p, sizeof p - 1);
     if (n < 0) return 0;
     p[n] = 0;
     return named(p);
}
static int hit(const char *what)
{
     const char *at = getenv("VF_FAIL_AT"), *mode = getenv("VF_FAIL_MODE"), *log = getenv("VF_FAIL_LOG"), *en = getenv("VF_FAIL_ERRNO");
     int k = ++count, f = 0;
     if (at) { int a = atoi(at); f = (mode && !strcmp(mode, "sticky")) ? k >= a : k == a; }
     if (log) {
	  FILE *g = fopen(log, "a");
	  if (g) { fprintf(g, "%d %s%s\n", k, what, f ? " FAILED" : ""); fclose(g); }
     }
     if (f) errno = en ? atoi(en) : ENOSPC;
     return f;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (isf(fd) && hit("write")) return -1; return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (isf(fd) && hit("write")) return -1; return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (isf(fd) && hit("write")) return -1; return real(fd, b, n, o); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (isf(fd) && hit("truncate")) return -1; return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (isf(fd) && hit("truncate")) return -1; return real(fd, l); }
int open(const char *p, int fl, ...)
{
     mode_t m = 0; va_list ap; REAL(open);
     if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
     if ((fl & (O_CREAT | O_RDWR | O_WRONLY)) && named(p) && hit("open")) return -1;
     return real(p, fl, m);
}
int open64(const char *p, int fl, ...)
{
     mode_t m = 0; va_list ap; REAL(open64);
     if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
     if ((fl & (O_CREAT | O_RDWR | O_WRONLY)) && named(p) && hit("open")) return -1;
     return real(p, fl, m);
}
