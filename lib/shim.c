/* LD_PRELOAD monitor: appends a line to $SHIM_LOG for every library call that could change the file system. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static void report(const char *fn, const char *path)
{
	const char *log = getenv("SHIM_LOG");
	if (!log) {
		return;
	}
	int fd = (int) syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd < 0) {
		return;
	}
	char buf[512];
	int n = snprintf(buf, sizeof(buf), "%s(%s)\n", fn, path ? path : "");
	if (n > (int) sizeof(buf) - 1) {
		n = sizeof(buf) - 1;
	}
	syscall(SYS_write, fd, buf, n);
	syscall(SYS_close, fd);
}

#define NEXT(ret, name, ...) ret (*next)(__VA_ARGS__) = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)
#define WRITES(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))

#define OPEN(fn) \
int fn(const char *p, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
	NEXT(int, #fn, const char *, int, ...); \
	if (WRITES(flags)) { report(#fn, p); } else { report("read", p); } \
	return next(p, flags, m); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(fn) \
int fn(int d, const char *p, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
	NEXT(int, #fn, int, const char *, int, ...); \
	if (WRITES(flags)) report(#fn, p); \
	return next(d, p, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(fn) \
FILE *fn(const char *p, const char *mode) \
{ \
	NEXT(FILE *, #fn, const char *, const char *); \
	if (strpbrk(mode, "wa+")) { report(#fn, p); } else { report("read", p); } \
	return next(p, mode); \
}
FOPEN(fopen)
FOPEN(fopen64)
FILE *freopen(const char *p, const char *mode, FILE *f)
{
	NEXT(FILE *, "freopen", const char *, const char *, FILE *);
	if (strpbrk(mode, "wa+")) report("freopen", p);
	return next(p, mode, f);
}
#define ONE(fn, T2, n2) \
int fn(const char *p, T2 n2) \
{ \
	NEXT(int, #fn, const char *, T2); \
	report(#fn, p); \
	return next(p, n2); \
}
ONE(creat, mode_t, m)
ONE(creat64, mode_t, m)
ONE(rename, const char *, q)
ONE(link, const char *, q)
ONE(symlink, const char *, q)
ONE(mkdir, mode_t, m)
ONE(chmod, mode_t, m)
ONE(truncate, off_t, m)
#define ZERO(fn, T) \
int fn(T p) \
{ \
	NEXT(int, #fn, T); \
	report(#fn, (const char *) p); \
	return next(p); \
}
ZERO(unlink, const char *)
ZERO(remove, const char *)
ZERO(rmdir, const char *)
ZERO(mkstemp, char *)
ZERO(mkstemp64, char *)
ZERO(system, const char *)
int ftruncate(int fd, off_t n) { NEXT(int, "ftruncate", int, off_t); report("ftruncate", ""); return next(fd, n); }
int unlinkat(int d, const char *p, int f) { NEXT(int, "unlinkat", int, const char *, int); report("unlinkat", p); return next(d, p, f); }
int renameat(int d, const char *p, int e, const char *q) { NEXT(int, "renameat", int, const char *, int, const char *); report("renameat", p); return next(d, p, e, q); }
int mkdirat(int d, const char *p, mode_t m) { NEXT(int, "mkdirat", int, const char *, mode_t); report("mkdirat", p); return next(d, p, m); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { NEXT(int, "utimensat", int, const char *, const struct timespec *, int); report("utimensat", p); return next(d, p, t, f); }
int futimens(int d, const struct timespec t[2]) { NEXT(int, "futimens", int, const struct timespec *); report("futimens", ""); return next(d, t); }
char *mkdtemp(char *t) { NEXT(char *, "mkdtemp", char *); report("mkdtemp", t); return next(t); }
FILE *tmpfile(void) { NEXT(FILE *, "tmpfile", void); report("tmpfile", ""); return next(); }
FILE *popen(const char *c, const char *m) { NEXT(FILE *, "popen", const char *, const char *); report("popen", c); return next(c, m); }
