/* LD_PRELOAD: the system policy directories are looked up below $REMAP_ROOT; every such access is logged to $REMAP_LOG. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
typedef void FTS; typedef void FTSENT;
#include <glob.h>
#include <ftw.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static const char *map(const char *p, char *buf)
{
	static const char *const pre[] = { "/usr/share/selinux", "/sys/fs/selinux", "/selinux", "/etc/selinux", NULL };
	const char *root = getenv("REMAP_ROOT");
	if (!p || !root) {
		return p;
	}
	for (int i = 0; pre[i]; i++) {
		size_t n = strlen(pre[i]);
		if (!strncmp(p, pre[i], n) && (p[n] == '/' || !p[n])) {
			const char *log = getenv("REMAP_LOG");
			if (log) {
				int fd = (int) syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0600);
				if (fd >= 0) {
					syscall(SYS_write, fd, p, strlen(p));
					syscall(SYS_write, fd, "\n", 1);
					syscall(SYS_close, fd);
				}
			}
			snprintf(buf, 4096, "%s%s", root, p);
			return buf;
		}
	}
	return p;
}

#define NEXT(name, type) __typeof__(type) *next = (__typeof__(type) *) dlsym(RTLD_NEXT, name)
#define BUF char b[4096]

#define FTSOPEN(fn) \
FTS *fn(char *const *paths, int o, int (*c)(const FTSENT **, const FTSENT **)) \
{ \
	NEXT(#fn, FTS *(char *const *, int, int (*)(const FTSENT **, const FTSENT **))); \
	char bufs[16][4096]; \
	char *p[1024]; \
	int i, k = 0; \
	for (i = 0; paths[i] && i < 1023; i++) { \
		p[i] = k < 16 ? (char *) map(paths[i], bufs[k]) : paths[i]; \
		k += p[i] != paths[i]; \
	} \
	p[i] = NULL; \
	return next(k ? p : paths, o, c); \
}
FTSOPEN(fts_open)
FTSOPEN(fts64_open)

#define P1(ret, fn, ...) ret fn(const char *p) { BUF; NEXT(#fn, ret (const char *)); return next(map(p, b)); }
#define P2(ret, fn, T) ret fn(const char *p, T x) { BUF; NEXT(#fn, ret (const char *, T)); return next(map(p, b), x); }
P1(DIR *, opendir)
P2(int, access, int)
P2(int, eaccess, int)
P2(int, euidaccess, int)
P2(int, stat, struct stat *)
P2(int, lstat, struct stat *)
P2(int, stat64, struct stat64 *)
P2(int, lstat64, struct stat64 *)
P2(FILE *, fopen, const char *)
P2(FILE *, fopen64, const char *)
P2(char *, realpath, char *)
int chdir(const char *p) { BUF; NEXT("chdir", int (const char *)); return next(map(p, b)); }
int faccessat(int d, const char *p, int m, int f) { BUF; NEXT("faccessat", int (int, const char *, int, int)); return next(d, map(p, b), m, f); }
int fstatat(int d, const char *p, struct stat *s, int f) { BUF; NEXT("fstatat", int (int, const char *, struct stat *, int)); return next(d, map(p, b), s, f); }
int scandir(const char *p, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **))
{ BUF; NEXT("scandir", int (const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **))); return next(map(p, b), l, f, c); }
int nftw(const char *p, __nftw_func_t f, int n, int fl) { BUF; NEXT("nftw", int (const char *, __nftw_func_t, int, int)); return next(map(p, b), f, n, fl); }
int ftw(const char *p, __ftw_func_t f, int n) { BUF; NEXT("ftw", int (const char *, __ftw_func_t, int)); return next(map(p, b), f, n); }
int glob(const char *p, int fl, int (*e)(const char *, int), glob_t *g) { BUF; NEXT("glob", int (const char *, int, int (*)(const char *, int), glob_t *)); return next(map(p, b), fl, e, g); }
#define OPEN(fn) \
int fn(const char *p, int flags, ...) \
{ va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); BUF; NEXT(#fn, int (const char *, int, ...)); return next(map(p, b), flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) \
int fn(int d, const char *p, int flags, ...) \
{ va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); BUF; NEXT(#fn, int (int, const char *, int, ...)); return next(d, map(p, b), flags, m); }
OPENAT(openat)
OPENAT(openat64)
